From 777ab89e0248159ea81c6857289fc584e45601fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 01/27] fix: do not treat read errors and truncated rows in dc
 input as end of input

---
 src/source/dc_source.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..d2d2205 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,11 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        // input may only end in between two rows, anything else is an error
+        if self.is_at_end_of_input()? {
+            return Ok(None);
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
@@ -159,6 +160,16 @@ impl<R: io::Read> DCSource<R> {
         Ok(Some(self.current_row.clone()))
     }
 
+    fn is_at_end_of_input(&mut self) -> io::Result<bool> {
+        loop {
+            match self.reader.fill_buf() {
+                Ok(buf) => return Ok(buf.is_empty()),
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            }
+        }
+    }
+
     fn read_string(reader: &mut io::BufReader<R>) -> CliResult<String> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
-- 
2.43.0


From d4f324816d8dafebc9ec9e08b7e0b14089e05254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 02/27] fix: size dc null bitset for all the fields when
 writing dc

---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From b94bcdf625b202d80bfe24915586e90fa66a8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 03/27] fix: do not panic when a source has no rows in
 requested range

---
 src/driver/driver.rs            | 16 ++++++++++++++++
 src/driver/source_row_buffer.rs |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..79dcafc 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -35,6 +35,11 @@ impl Driver {
     fn drive(&mut self) -> CliResult<()> {
         let mut row_buffers = self.get_row_buffers()?;
 
+        // sources that have no rows in requested range are done right away
+        for chain_id in Self::remove_empty_buffers(&mut row_buffers) {
+            self.flush(chain_id, 0)?;
+        }
+
         // sort and output
         // all the sources are processed at the same time, but a row with min timestamp is output first
         let mut buffer_len = row_buffers.len();
@@ -69,6 +74,17 @@ impl Driver {
         Ok(row_buffers)
     }
 
+    fn remove_empty_buffers(row_buffers: &mut Vec<SourceRowBuffer>) -> Vec<ChainId> {
+        let mut chain_ids = Vec::new();
+        row_buffers.retain(|row_buffer| {
+            if row_buffer.row().is_none() {
+                chain_ids.push(row_buffer.chain_id());
+            }
+            row_buffer.row().is_some()
+        });
+        chain_ids
+    }
+
     // index of the row buffer that has a row with min timestamp
     fn get_next_buffer_index(row_buffers: &Vec<SourceRowBuffer>) -> usize {
         let min = row_buffers
diff --git a/src/driver/source_row_buffer.rs b/src/driver/source_row_buffer.rs
index bf40e35..56e929e 100644
--- a/src/driver/source_row_buffer.rs
+++ b/src/driver/source_row_buffer.rs
@@ -36,7 +36,7 @@ impl SourceRowBuffer {
         &self.row
     }
 
-    pub fn chain_id(&mut self) -> ChainId {
+    pub fn chain_id(&self) -> ChainId {
         self.chain_id
     }
 
-- 
2.43.0


From 478e0e85ef88f1794d5244c9673124f924575b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 04/27] fix: send rows of each source to its own chain

---
 src/driver/driver.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 79dcafc..c328b89 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -67,8 +67,7 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
-            let source = self.sources.pop().unwrap();
+        for (i, source) in self.sources.drain(..).enumerate() {
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
         Ok(row_buffers)
-- 
2.43.0


From fcbef13b3ca937d9b806d29d292a9685ad5f8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 05/27] fix: do not carry over csv fields from previous row
 into shorter row

---
 src/source/csv_source.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..d47f669 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
 use crate::util::csv_util;
@@ -61,7 +61,7 @@ impl CSVSource {
 
         // get first row
         let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let field_count = first_row.len();
+        let mut field_count = first_row.len();
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -70,6 +70,11 @@ impl CSVSource {
             for i in header_record {
                 field_names.push(i.to_string());
             }
+            // rows can be shorter than header, but if they are longer then name the extra fields
+            field_count = field_count.max(field_names.len());
+            for i in field_names.len()..field_count {
+                field_names.push(format!("col_{}", i));
+            }
         } else {
             // if field name is not given, assign default name - "col_x"
             for i in 0..field_count {
@@ -114,9 +119,19 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_values = &mut self.next_row.field_values;
+        if next_record.len() > field_values.len() {
+            return Err(Error::from(format!(
+                "CSVSource -- row has too many fields; expected: {}; found: {}",
+                field_values.len(),
+                next_record.len()
+            )));
+        }
+        for (i, field_value) in field_values.iter_mut().enumerate() {
+            *field_value = match next_record.get(i) {
+                Some(value) => FieldValue::String(value.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From 7605f25202048a4ec70a2fa8c7432afdca6e6ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 06/27] fix: do not panic on csv input without rows

---
 src/source/csv_source.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index d47f669..1e096dc 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -7,7 +7,7 @@ use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
-use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
+use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
 use crate::util::tz::ChopperTz;
@@ -60,8 +60,8 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let mut field_count = first_row.len();
+        let first_row: Option<csv::StringRecord> = reader.records().next().transpose()?;
+        let mut field_count = first_row.as_ref().map_or(0, |row| row.len());
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -94,13 +94,20 @@ impl CSVSource {
 
         let timestamp_config = csv_config.timestamp_config();
         let timezone = timestamp_config.timezone();
-        let (timestamp_col, timestamp_fmt) = csv_timestamp::get_timestamp_col_and_fmt(
-            &header,
-            &first_row,
-            timestamp_config.timestamp_col(),
-            timestamp_config.timestamp_fmt(),
-            timezone,
-        )?;
+        let (timestamp_col, timestamp_fmt) = match &first_row {
+            Some(first_row) => csv_timestamp::get_timestamp_col_and_fmt(
+                &header,
+                first_row,
+                timestamp_config.timestamp_col(),
+                timestamp_config.timestamp_fmt(),
+                timezone,
+            )?,
+            // no rows, so there are no timestamps to parse, just give something back
+            None => (
+                TimestampCol::Index(0),
+                TimestampFmt::Units(TimestampUnits::Nanos),
+            ),
+        };
 
         let mut csv_reader = CSVSource {
             reader,
@@ -109,11 +116,13 @@ impl CSVSource {
             timestamp_fmt,
             timezone: timezone.clone(),
             next_row,
-            has_next_row: true,
+            has_next_row: first_row.is_some(),
         };
 
         // update next_row with first row
-        csv_reader.update_row(first_row)?;
+        if let Some(first_row) = first_row {
+            csv_reader.update_row(first_row)?;
+        }
 
         Ok(csv_reader)
     }
-- 
2.43.0


From cfa8d487bd783937e5ce9adb568709dbd0e8103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 07/27] fix: drop extra trailing columns in multi-file input

---
 src/source/multi_file_source.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..ce3e637 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -182,8 +182,11 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            // extra columns have to be dropped, even if nothing has to be swapped
+                            next_row
+                                .field_values
+                                .truncate(self.common_header.field_names().len());
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From 8a58585ab44a0d887d67c09cdf26843279f7a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 08/27] fix: use requested delimiter in csv header

---
 src/write/csv_sink.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..16e847f 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,17 +36,23 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(
+                writer,
+                "{}{}",
+                self.csv_output_config.time_col_name(),
+                delimiter
+            )?;
         }
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From e558f10b7e54018edf6322421ad216742e5ad118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 09/27] fix: retry interrupted reads

---
 src/util/reader.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/util/reader.rs b/src/util/reader.rs
index 18da41c..a225310 100644
--- a/src/util/reader.rs
+++ b/src/util/reader.rs
@@ -216,6 +216,16 @@ impl<R: Read> ChopperBufReader<R> {
         Ok(())
     }
 
+    /// interrupted reads have to be retried, and not all the decoders on top of this reader do it
+    fn read_uninterrupted(inner: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match inner.read(buf) {
+                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+
     fn fill_buffer_one_shot(&mut self) -> io::Result<usize> {
         if self.cap == self.buf.len() {
             return Err(Error::new(
@@ -224,7 +234,7 @@ impl<R: Read> ChopperBufReader<R> {
             ));
         }
 
-        let bytes_read = self.inner.read(&mut self.buf[self.cap..])?;
+        let bytes_read = Self::read_uninterrupted(&mut self.inner, &mut self.buf[self.cap..])?;
         self.cap += bytes_read;
         debug_assert!(self.cap <= self.buf.len());
         Ok(bytes_read)
@@ -238,7 +248,7 @@ impl<R: Read> Read for ChopperBufReader<R> {
         // entirely.
         if self.pos == self.cap && buf.len() >= self.buf.len() {
             self.discard_buffer();
-            return self.inner.read(buf);
+            return Self::read_uninterrupted(&mut self.inner, buf);
         }
         let bytes_read = {
             let mut rem = self.fill_buf()?;
@@ -255,7 +265,7 @@ impl<R: Read> BufRead for ChopperBufReader<R> {
         // to tell the compiler that the pos..cap slice is always valid.
         if self.pos >= self.cap {
             debug_assert!(self.pos == self.cap);
-            self.cap = self.inner.read(&mut self.buf)?;
+            self.cap = Self::read_uninterrupted(&mut self.inner, &mut self.buf)?;
             self.pos = 0;
         }
         Ok(&self.buf[self.pos..self.cap])
-- 
2.43.0


From 9387746c0a5aa5ad61154191e57d0d4a5bf0b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 10/27] fix: do not ignore errors when listing directory input

---
 src/transport/dir/file.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/transport/dir/file.rs b/src/transport/dir/file.rs
index 5aa1ee9..13e4ffb 100644
--- a/src/transport/dir/file.rs
+++ b/src/transport/dir/file.rs
@@ -1,3 +1,4 @@
+use std::io;
 use std::path::{Path, PathBuf};
 
 use crate::error::CliResult;
@@ -16,13 +17,12 @@ impl DirTransport for DirFileTransport {
     }
 
     fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
-        match path.read_dir() {
-            Ok(dir_entry_iter) => {
-                let path_iter = dir_entry_iter.filter_map(|entry| Some(entry.ok()?.path()));
-                Ok(Box::new(path_iter))
-            }
-            Err(e) => Err(e.into()),
-        }
+        // if any of the entries cannot be listed then files would be silently missing
+        let paths = path
+            .read_dir()?
+            .map(|entry| Ok(entry?.path()))
+            .collect::<io::Result<Vec<PathBuf>>>()?;
+        Ok(Box::new(paths.into_iter()))
     }
 
     fn box_clone(&self) -> Box<dyn DirTransport> {
-- 
2.43.0


From 23dd39c888095141f4b8584d8177a0d3ada2fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 11/27] fix: read all the members of gz input

---
 src/decompress/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..7bd75c0 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From dcb959e8a7333e9742f9187142211cbd309ad2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 12/27] fix: count sub-headers when reading zip extra field

---
 src/decompress/zip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..5045e97 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -377,7 +377,8 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            // header id and data size fields are part of extra field too
+            total_bytes_read += 4 + data_size as u64;
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From bfd7fb41ff2a7737dc6c7f1b3bb054eed585054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 13/27] fix: handle short and interrupted writes in dcgen

---
 util/dcgen/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/dcgen/src/main.rs b/util/dcgen/src/main.rs
index 3aaf379..30a2b6f 100644
--- a/util/dcgen/src/main.rs
+++ b/util/dcgen/src/main.rs
@@ -48,7 +48,7 @@ fn write_version(mut out: &File) { out.write_u16::<BigEndian>(2).unwrap(); }
 fn write_user_header(mut out: &File) {
     let user_header = b"example";
     out.write_u32::<BigEndian>(user_header.len() as u32).unwrap();
-    out.write(user_header).unwrap();
+    out.write_all(user_header).unwrap();
 }
 
 fn write_field_descriptors(mut out: &File) {
@@ -78,7 +78,7 @@ fn write_field_type(out: &File, field_type: FieldType) {
 fn write_sized_string(mut out: &File, string: &str) {
     let bytes = string.as_bytes();
     out.write_u32::<BigEndian>(bytes.len() as u32).unwrap();
-    out.write(bytes).unwrap();
+    out.write_all(bytes).unwrap();
 }
 
 fn write_field_display_hint(mut out: &File, display_hint: DisplayHint) {
@@ -111,7 +111,7 @@ fn write_row(mut out: &File, timestamp: u64) {
 fn write_row_bitfield_with_no_nulls(mut out: &File, field_count: u32) {
     let bytes_needed: u32 = 1+((field_count-1)/8);
     let bitfield: Vec<u8> = vec![0; bytes_needed as usize];
-    out.write(bitfield.as_ref()).unwrap();
+    out.write_all(bitfield.as_ref()).unwrap();
 }
 
 fn write_string_value(mut out: &File, value: &str) {
@@ -122,5 +122,5 @@ fn write_string_value(mut out: &File, value: &str) {
         out.write_i16::<BigEndian>(-1).unwrap();
         out.write_u32::<BigEndian>(bytes.len() as u32).unwrap();
     }
-    out.write(bytes).unwrap();
+    out.write_all(bytes).unwrap();
 }
-- 
2.43.0


From e9dbb97669d1d603418dc69f937fa22a993a7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 14/27] fix: do not detect dc input as csv

---
 src/input/input_factory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..05c6f01 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -152,11 +152,11 @@ impl InputFactory {
 pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
-    let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    // csv accepts any text, and header of dc file can be valid text too, so check for dc first
+    let mut source_factories: Vec<Box<dyn SourceFactory>> = vec![Box::new(DCFactory)];
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From a31ad7348c2b777d1e11c12ad1dad4ff29822783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 15/27] fix: verify content checksum of zst input

---
 src/decompress/zst.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..d8555c0 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -22,6 +22,19 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
+
+    /// can only be done when all the data was decoded and read
+    fn check_checksum(&self) -> io::Result<()> {
+        if let Some(checksum) = self.decoder.get_checksum_from_data() {
+            if self.decoder.get_calculated_checksum() != Some(checksum) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "zst checksum mismatch",
+                ));
+            }
+        }
+        Ok(())
+    }
 }
 
 impl<R: Read> Read for ZstReader<R> {
@@ -44,6 +57,10 @@ impl<R: Read> Read for ZstReader<R> {
             }
         }
 
-        self.decoder.read(buf)
+        let bytes_read = self.decoder.read(buf)?;
+        if bytes_read == 0 && !buf.is_empty() {
+            self.check_checksum()?;
+        }
+        Ok(bytes_read)
     }
 }
-- 
2.43.0


From d212154550d210e78e176398ead2f02222a06037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 16/27] fix: read all the frames of zst input

---
 src/decompress/frames.rs | 30 ++++++++++++++++++++
 src/decompress/mod.rs    |  1 +
 src/decompress/zst.rs    | 61 ++++++++++++++++++++++++++--------------
 3 files changed, 71 insertions(+), 21 deletions(-)
 create mode 100644 src/decompress/frames.rs

diff --git a/src/decompress/frames.rs b/src/decompress/frames.rs
new file mode 100644
index 0000000..c767e66
--- /dev/null
+++ b/src/decompress/frames.rs
@@ -0,0 +1,30 @@
+use std::io::{self, Read};
+
+use byteorder::{ByteOrder, LittleEndian, ReadBytesExt};
+
+/// lz4 and zst inputs consist of one or more frames; each frame starts with a magic number;
+/// they also share the format of skippable frames, which contain user data and have to be ignored
+const SKIPPABLE_FRAME_MAGIC_START: u32 = 0x184D2A50;
+const SKIPPABLE_FRAME_MAGIC_END: u32 = 0x184D2A5F;
+
+/// returns magic number of the next frame that is not skippable, or None if there are no more frames
+pub fn read_next_frame_magic<R: Read>(reader: &mut R) -> io::Result<Option<io::Cursor<[u8; 4]>>> {
+    loop {
+        let mut magic = [0; 4];
+        magic[0] = match reader.by_ref().bytes().next() {
+            None => return Ok(None),
+            Some(first_byte) => first_byte?,
+        };
+        reader.read_exact(&mut magic[1..])?;
+
+        let magic_num = LittleEndian::read_u32(&magic);
+        if magic_num < SKIPPABLE_FRAME_MAGIC_START || magic_num > SKIPPABLE_FRAME_MAGIC_END {
+            return Ok(Some(io::Cursor::new(magic)));
+        }
+
+        let size = reader.read_u32::<LittleEndian>()? as u64;
+        if io::copy(&mut reader.by_ref().take(size), &mut io::sink())? != size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..0134b2b 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod frames;
 pub mod zip;
 mod zst;
diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index d8555c0..7a355be 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,6 +1,8 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
 use std::io::{self, Read};
 
+use crate::decompress::frames;
+
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
@@ -12,17 +14,44 @@ impl<R: Read> ZstReader<R> {
             inner: reader,
             decoder: FrameDecoder::new(),
         };
-        zst_reader.init()?;
+        if !zst_reader.next_frame()? {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(zst_reader)
     }
 
-    fn init(&mut self) -> io::Result<()> {
-        match self.decoder.init(&mut self.inner) {
-            Ok(o) => Ok(o),
+    /// returns false if there are no more frames
+    fn next_frame(&mut self) -> io::Result<bool> {
+        let magic = match frames::read_next_frame_magic(&mut self.inner)? {
+            Some(magic) => magic,
+            None => return Ok(false),
+        };
+        self.decoder = FrameDecoder::new();
+        match self.decoder.init(&mut magic.chain(&mut self.inner)) {
+            Ok(()) => Ok(true),
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
 
+    fn decode(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        while !self.decoder.is_finished() {
+            let bytes_available = self.decoder.can_collect();
+            if bytes_available >= buf.len() {
+                break;
+            }
+
+            let additional_bytes_needed = buf.len() - bytes_available;
+            if let Err(e) = self.decoder.decode_blocks(
+                &mut self.inner,
+                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
+            ) {
+                return Err(io::Error::new(io::ErrorKind::Other, e));
+            }
+        }
+
+        self.decoder.read(buf)
+    }
+
     /// can only be done when all the data was decoded and read
     fn check_checksum(&self) -> io::Result<()> {
         if let Some(checksum) = self.decoder.get_checksum_from_data() {
@@ -42,25 +71,15 @@ impl<R: Read> Read for ZstReader<R> {
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while !self.decoder.is_finished() {
-            let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
-                break;
+        loop {
+            let bytes_read = self.decode(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
             }
-
-            let additional_bytes_needed = buf.len() - bytes_available;
-            if let Err(e) = self.decoder.decode_blocks(
-                &mut self.inner,
-                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
-            ) {
-                return Err(io::Error::new(io::ErrorKind::Other, e));
-            }
-        }
-
-        let bytes_read = self.decoder.read(buf)?;
-        if bytes_read == 0 && !buf.is_empty() {
             self.check_checksum()?;
+            if !self.next_frame()? {
+                return Ok(0);
+            }
         }
-        Ok(bytes_read)
     }
 }
-- 
2.43.0


From 6e016ce5b3d62f709b1f3a319a429bca5fc23e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 17/27] fix: read all the frames of lz4 input

---
 src/decompress/decompress.rs | 11 ++-----
 src/decompress/lz4.rs        | 57 ++++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |  1 +
 3 files changed, 61 insertions(+), 8 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 7bd75c0..444ad25 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::Lz4FramesReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,13 +130,8 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
-        Err(e) => {
-            return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
-        }
-    };
-    Ok(Box::new(frame_reader.into_read()))
+    let decoder = Lz4FramesReader::new(reader)?;
+    Ok(Box::new(decoder))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..43045d1
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,57 @@
+use std::cell::RefCell;
+use std::io::{self, Read};
+use std::rc::Rc;
+
+use lz_fear::framed::{LZ4FrameIoReader, LZ4FrameReader};
+
+use crate::decompress::frames;
+
+/// LZ4FrameReader stops at the end of the frame, but there can be more frames after that
+pub struct Lz4FramesReader<R: Read> {
+    inner: SharedReader<R>,
+    frame: LZ4FrameIoReader<'static, io::Chain<io::Cursor<[u8; 4]>, SharedReader<R>>>,
+}
+
+impl<R: Read> Lz4FramesReader<R> {
+    pub fn new(reader: R) -> io::Result<Lz4FramesReader<R>> {
+        let mut inner = SharedReader(Rc::new(RefCell::new(reader)));
+        let magic = match frames::read_next_frame_magic(&mut inner)? {
+            Some(magic) => magic,
+            None => return Err(io::ErrorKind::UnexpectedEof.into()),
+        };
+        let frame = LZ4FrameReader::new(magic.chain(inner.clone()))?.into_read();
+        Ok(Lz4FramesReader { inner, frame })
+    }
+}
+
+impl<R: Read> Read for Lz4FramesReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+            match frames::read_next_frame_magic(&mut self.inner)? {
+                Some(magic) => {
+                    self.frame =
+                        LZ4FrameReader::new(magic.chain(self.inner.clone()))?.into_read();
+                }
+                None => return Ok(0),
+            }
+        }
+    }
+}
+
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R> Clone for SharedReader<R> {
+    fn clone(&self) -> Self {
+        SharedReader(self.0.clone())
+    }
+}
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index 0134b2b..7cb485a 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,5 +1,6 @@
 mod crc32;
 pub mod decompress;
 mod frames;
+mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From 5feff3615d5ed32c3bc0f027a9ede62821c969f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 18/27] fix: report lz4 block input without end mark as an
 error

---
 src/decompress/decompress.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 444ad25..463e72d 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -135,10 +135,28 @@ fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(reader, true, true);
+    let decoder = Lz4JBlockReader::new(NoEofReader(reader), true, true);
     Ok(Box::new(decoder))
 }
 
+/// lz4 block format ends with an empty block and nothing is read past it,
+/// so if underlying reader runs out of data before that then it was cut short;
+/// Lz4JBlockReader itself does not report that if it happens in between two blocks
+struct NoEofReader<R>(R);
+
+impl<R: Read> Read for NoEofReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.0.read(buf)?;
+        if bytes_read == 0 && !buf.is_empty() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "lz4 block input is missing end mark",
+            ));
+        }
+        Ok(bytes_read)
+    }
+}
+
 fn decompress_lzf(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
     let decoder = LzfReader::new(reader);
     Ok(Box::new(decoder))
-- 
2.43.0


From 8a999ed23466ddb1e2091c10a44fcc4f12d2f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 19/27] fix: check that http response is not shorter than its
 content length

---
 src/transport/streaming/http.rs | 51 ++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index 25de02c..b459caa 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -15,7 +15,13 @@ impl StreamingTransport for HttpTransport {
         let response = ureq::get(path.to_str().unwrap()).call();
 
         if response.ok() {
-            Ok(Box::new(response.into_reader()))
+            match get_content_length(&response)? {
+                Some(content_length) => Ok(Box::new(ContentLengthReader {
+                    inner: response.into_reader(),
+                    remaining: content_length,
+                })),
+                None => Ok(Box::new(response.into_reader())),
+            }
         } else {
             Err(io::Error::new(
                 io::ErrorKind::Other,
@@ -37,3 +43,46 @@ impl StreamingTransport for HttpTransport {
         "http"
     }
 }
+
+/// returns None if the length is not known upfront
+fn get_content_length(response: &ureq::Response) -> io::Result<Option<u64>> {
+    let is_http10 = response.http_version().eq_ignore_ascii_case("HTTP/1.0");
+    if response.has("transfer-encoding") && !is_http10 {
+        return Ok(None);
+    }
+    match response.header("content-length") {
+        None => Ok(None),
+        Some(content_length) => match content_length.trim().parse::<u64>() {
+            Ok(content_length) => Ok(Some(content_length)),
+            Err(_) => Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("invalid http content length: {}", content_length),
+            )),
+        },
+    }
+}
+
+/// ureq ignores content length of responses that are supposed to end with connection being closed
+struct ContentLengthReader<R> {
+    inner: R,
+    remaining: u64,
+}
+
+impl<R: io::Read> io::Read for ContentLengthReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let max_len = self.remaining.min(buf.len() as u64) as usize;
+        if max_len == 0 {
+            return Ok(0);
+        }
+        let bytes_read = self.inner.read(&mut buf[..max_len])?;
+        if bytes_read == 0 {
+            // not UnexpectedEof, because some decoders take that as end of input
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "http response is shorter than its content length",
+            ));
+        }
+        self.remaining -= bytes_read as u64;
+        Ok(bytes_read)
+    }
+}
-- 
2.43.0


From 84d4ef63c67534e5e4d9d9e04e9eeef0af1e2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 20/27] fix: do not wrap timestamps that are out of range

---
 src/source/csv_timestamp.rs | 38 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..b449478 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -1,6 +1,7 @@
+use std::convert::TryFrom;
 use std::ops::Range;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
@@ -93,33 +94,42 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
-            }
+            let nanos = match units {
+                TimestampUnits::Seconds => timestamp.checked_mul(1_000_000_000),
+                TimestampUnits::Millis => timestamp.checked_mul(1_000_000),
+                TimestampUnits::Micros => timestamp.checked_mul(1_000),
+                TimestampUnits::Nanos => Some(timestamp),
+            };
+            nanos.ok_or_else(|| out_of_range(&timestamp))?
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            to_nanos(DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            to_nanos(timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            to_nanos(timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
 }
 
+fn to_nanos<Tz: TimeZone>(date_time: DateTime<Tz>) -> CliResult<Nanos> {
+    u64::try_from(date_time.timestamp())
+        .ok()
+        .and_then(|secs| secs.checked_mul(1_000_000_000))
+        .and_then(|nanos| nanos.checked_add(date_time.timestamp_subsec_nanos() as u64))
+        .ok_or_else(|| out_of_range(&date_time.naive_utc()))
+}
+
+fn out_of_range(timestamp: &dyn std::fmt::Display) -> Error {
+    Error::from(format!("timestamp {} is out of range", timestamp))
+}
+
 pub fn get_timestamp_col_and_fmt(
     header: &Header,
     first_row: &csv::StringRecord,
-- 
2.43.0


From fde9074c52c5f66927f06c9a50bbfa0e7360e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 21/27] fix: do not wrap begin and end that are out of range

---
 src/util/timestamp_util.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..4f705ce 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,6 @@
-use chrono::{DateTime, NaiveDateTime};
+use std::convert::TryFrom;
+
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -74,14 +76,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return Ok(to_nanos_saturating(dt));
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return Ok(to_nanos_saturating(timezone.from_local_datetime(&ndt)?));
         }
     }
 
@@ -91,6 +93,16 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     )))
 }
 
+/// begin or end of the range can be outside of what Nanos can represent, but rows can't be
+fn to_nanos_saturating<Tz: TimeZone>(date_time: DateTime<Tz>) -> Nanos {
+    match u64::try_from(date_time.timestamp()) {
+        Ok(secs) => secs
+            .saturating_mul(1_000_000_000)
+            .saturating_add(date_time.timestamp_subsec_nanos() as u64),
+        Err(_) => 0,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 04dd1af2a0204b3ac0fce1d791f0dfb19f33b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 22/27] fix: detect epoch timestamps before trying date formats

---
 src/source/csv_timestamp.rs | 39 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index b449478..e8eaf11 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -344,6 +344,26 @@ fn get_timestamp_fmt_auto_with_index(
 
     let timestamp = first_row.get(time_idx).unwrap();
 
+    // epoch units first, since formats below match digits without separators as well
+    if timestamp.chars().all(|c| c.is_ascii_digit()) {
+        let n = match timestamp.parse::<u64>() {
+            Ok(ts) => ts,
+            Err(err) => return Err(Error::Custom(err.to_string())),
+        };
+        if RANGE_NANOS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
+        }
+        if RANGE_MICROS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
+        }
+        if RANGE_MILLIS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
+        }
+        if RANGE_SECONDS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
+        }
+    };
+
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
             return Ok(TimestampFmt::DateTimeIncludesTz(format.to_string()));
@@ -367,25 +387,6 @@ fn get_timestamp_fmt_auto_with_index(
         };
     }
 
-    if timestamp.chars().all(|c| c.is_ascii_digit()) {
-        let n = match timestamp.parse::<u64>() {
-            Ok(ts) => ts,
-            Err(err) => return Err(Error::Custom(err.to_string())),
-        };
-        if RANGE_NANOS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
-        }
-        if RANGE_MICROS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
-        }
-        if RANGE_MILLIS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
-        }
-        if RANGE_SECONDS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
-        }
-    };
-
     Err(Error::from(format!(
         "Cannot parse timestamp. Please provide format for parsing."
     )))
-- 
2.43.0


From 5665b2813df7b41a96714c09acb888b6efd5503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:59 +0000
Subject: [PATCH 23/27] fix: do not take UnexpectedEof of a transport as end of
 lzf or lz4 block input

---
 src/decompress/decompress.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 463e72d..abfad0d 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -146,7 +146,7 @@ struct NoEofReader<R>(R);
 
 impl<R: Read> Read for NoEofReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let bytes_read = self.0.read(buf)?;
+        let bytes_read = self.0.read(buf).map_err(not_unexpected_eof)?;
         if bytes_read == 0 && !buf.is_empty() {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidData,
@@ -158,10 +158,27 @@ impl<R: Read> Read for NoEofReader<R> {
 }
 
 fn decompress_lzf(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = LzfReader::new(reader);
+    let decoder = LzfReader::new(NotUnexpectedEofReader(reader));
     Ok(Box::new(decoder))
 }
 
+/// LzfReader and Lz4JBlockReader use UnexpectedEof to find the end of input, so if underlying reader
+/// fails with that then they would take the failure as the end of input
+struct NotUnexpectedEofReader<R>(R);
+
+impl<R: Read> Read for NotUnexpectedEofReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.read(buf).map_err(not_unexpected_eof)
+    }
+}
+
+fn not_unexpected_eof(error: io::Error) -> io::Error {
+    match error.kind() {
+        io::ErrorKind::UnexpectedEof => io::Error::new(io::ErrorKind::InvalidData, error),
+        _ => error,
+    }
+}
+
 fn decompress_zst(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
     let decoder = ZstReader::new(reader)?;
     Ok(Box::new(decoder))
-- 
2.43.0


From 590699c8e5eda3084c4d495b101919e7afe1f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 24/27] fix: retry http request that got interrupted while
 waiting for response

ureq gives up with a network error if a signal interrupts it before the whole
of the response header has been read.
---
 src/transport/streaming/http.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index b459caa..cb0b732 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -12,7 +12,14 @@ impl StreamingTransport for HttpTransport {
     }
 
     fn open(&self, path: &Path) -> io::Result<Box<dyn io::Read>> {
-        let response = ureq::get(path.to_str().unwrap()).call();
+        // ureq gives up if it's interrupted by a signal while waiting for response
+        let response = loop {
+            let response = ureq::get(path.to_str().unwrap()).call();
+            match response.synthetic_error() {
+                Some(ureq::Error::Io(e)) if e.kind() == io::ErrorKind::Interrupted => continue,
+                _ => break response,
+            }
+        };
 
         if response.ok() {
             match get_content_length(&response)? {
-- 
2.43.0


From 94ee5f3335d6fb691988fbfae950019bbe56c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 25/27] fix: refuse merge that gets fewer inputs than announced

Such a merge never got its header, so that nothing behind it ran and all of
its rows were dropped while the run reported success.
---
 src/chopper/data_graph.rs   |  7 +++++++
 src/chopper/header_graph.rs | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/chopper/data_graph.rs b/src/chopper/data_graph.rs
index 2c17333..119ff8b 100644
--- a/src/chopper/data_graph.rs
+++ b/src/chopper/data_graph.rs
@@ -57,6 +57,13 @@ impl DataGraph {
         self.data_chains.get_mut(chain_id).unwrap().node(node_id)
     }
 
+    pub fn has_merge_into(&self, chain_id: ChainId) -> bool {
+        self.data_chains
+            .iter()
+            .flat_map(|c| c.nodes.iter())
+            .any(|n| matches!(n, DataNode::Merge(id) if *id == chain_id))
+    }
+
     pub fn add_node(&mut self, node: DataNode, chain_id: ChainId) -> CliResult<()> {
         match self.data_chains.get_mut(chain_id) {
             Some(c) => c.nodes.push(node),
diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..48a1b3d 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -56,9 +56,25 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+        self.check_merges_complete(&data_graph, header.len())?;
         Ok(data_graph)
     }
 
+    // a merge that is still waiting for headers has no sinks, so rows sent to it would be lost
+    fn check_merges_complete(&self, data_graph: &DataGraph, source_count: usize) -> CliResult<()> {
+        for (chain_id, chain) in self.header_chains.iter().enumerate() {
+            if let Some(HeaderNode::MergeHeaderSink(_, header_count_tracker)) = chain.nodes.get(0) {
+                if chain_id < source_count || data_graph.has_merge_into(chain_id) {
+                    return Err(Error::from(format!(
+                        "HeaderGraph -- merge in ChainId[{}] is missing [{}] header(s)",
+                        chain_id, header_count_tracker.unprocessed_count
+                    )));
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn process_header_re(
         mut self,
         data_graph: &mut DataGraph,
-- 
2.43.0


From 8a0fb09924b9dfdd0f4f5600a65895db108d7dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 26/27] fix: accept --print-time values in any case as declared

The option is declared to be case insensitive, but any value other than
lower case "yes" and "no" reached unreachable!().
---
 src/chopper_cli.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..fcaab21 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,7 +214,12 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
+    let csv_out_print_time_col = match matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .to_lowercase()
+        .as_str()
+    {
         "yes" => true,
         "no" => false,
         _ => unreachable!(),
-- 
2.43.0


From fa18b4a0cabcfb9d89bd1b3a08c9fb29ac07100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 27/27] fix: do not end infinite.csv.gz response with an empty
 chunk

The gzip encoder returns nothing for most rows; an empty item of the body
ends the response, so clients got nothing but the gzip header.
---
 util/infistream/src/inficsvgz.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/util/infistream/src/inficsvgz.rs b/util/infistream/src/inficsvgz.rs
index d068195..cbd68b5 100644
--- a/util/infistream/src/inficsvgz.rs
+++ b/util/infistream/src/inficsvgz.rs
@@ -26,11 +26,14 @@ impl Stream for InfiCSVGZ {
     type Error = Error;
 
     fn poll(&mut self) -> Poll<Option<Self::Item>, Self::Error> {
-        let v = self.timestamp;
-        self.timestamp += 1;
+        // the encoder keeps most rows back for a while, and an empty item would end the response
+        while self.encoder.get_ref().is_empty() {
+            let v = self.timestamp;
+            self.timestamp += 1;
 
-        let row = format!("{},a{},b{},c{},d{},e{},f{}\n", v, v, v, v, v, v, v);
-        self.encoder.write(row.as_bytes()).unwrap();
+            let row = format!("{},a{},b{},c{},d{},e{},f{}\n", v, v, v, v, v, v, v);
+            self.encoder.write_all(row.as_bytes()).unwrap();
+        }
 
         let encoder_inner_buf = self.encoder.get_mut();
         let compressed_data = encoder_inner_buf.clone();
-- 
2.43.0

