From e560b02dad9d53c36e75ffe38c7050dd7f2ac741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 01/19] fix: record streamed entry sizes in the right order
 when forcing no ZIP64

The (compressed, uncompressed) pair was swapped, so the data descriptor and the
central directory record of a compressed entry had each size in the other's place.
---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From ea55ebea3fd0059bc9a5a53fcee269cc7e4be651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 02/19] fix: report the remaining bytes of a truncated extra
 field without underflow

The subtraction always underflowed on this path, which panics (or reports a
nonsensical length) for any archive with an over-long extra field.
---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 422d468..d5fb95f 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From 60fb9eec7c17c8210aeb90a3319949f196790e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 03/19] fix: keep an empty extra field at the end of the extra
 field data

A field with no content (eg. the 0xCAFE JAR marker) was dropped when it came last.
---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index d5fb95f..1c85a1a 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -267,7 +267,7 @@ impl Zip64EndOfCentralDirectoryLocator {
 pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut cursor = 0;
     let mut extra_fields = Vec::new();
-    while cursor + 4 < data.len() {
+    while cursor + 4 <= data.len() {
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-- 
2.43.0


From 04fa3888d9dda71522fb91316ac867d165c93065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 04/19] fix: count the ZIP64 disk start number as the 4 bytes
 it is written with

---
 src/spec/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/header.rs b/src/spec/header.rs
index f7c4392..93577d1 100644
--- a/src/spec/header.rs
+++ b/src/spec/header.rs
@@ -75,7 +75,7 @@ impl Zip64ExtendedInformationExtraField {
         self.uncompressed_size.map(|_| 8).unwrap_or_default()
             + self.compressed_size.map(|_| 8).unwrap_or_default()
             + self.relative_header_offset.map(|_| 8).unwrap_or_default()
-            + self.disk_start_number.map(|_| 8).unwrap_or_default()
+            + self.disk_start_number.map(|_| 4).unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 7fb0d710ba3d49724dab85541c2e523788174c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 05/19] fix: reject a ZIP64 locator offset which overflows
 instead of panicking

---
 src/base/read/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..9bd7aae 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -58,7 +58,11 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    let offset = locator
+                        .relative_offset
+                        .checked_add(SIGNATURE_LENGTH as u64)
+                        .ok_or(ZipError::UnableToLocateEOCDR)?;
+                    reader.seek(SeekFrom::Start(offset)).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From f3778b937f170051c6ce2e167716cf0625f099bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 06/19] fix: do not preallocate for an untrusted number of
 central directory entries

A crafted ZIP64 entry count made the allocation panic or abort before a single
record was read.
---
 src/base/read/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 9bd7aae..151533d 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,9 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{
+    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -90,7 +92,8 @@ where
     R: AsyncRead + Unpin,
 {
     let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    // The count is untrusted, so only preallocate for as many entries as a non-ZIP64 archive can hold.
+    let mut entries = Vec::with_capacity(std::cmp::min(num_of_entries, NON_ZIP64_MAX_NUM_FILES as usize));
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From f3bcc7fa9f0f68ef8b0dc8d5739cfa2a69161f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 07/19] fix: count vectored writes in the offset writer

---
 src/base/write/io/offset.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/base/write/io/offset.rs b/src/base/write/io/offset.rs
index 98d3777..76d945c 100644
--- a/src/base/write/io/offset.rs
+++ b/src/base/write/io/offset.rs
@@ -68,6 +68,13 @@ where
         cx: &mut Context<'_>,
         bufs: &[IoSlice<'_>],
     ) -> Poll<Result<usize, Error>> {
-        self.project().inner.poll_write_vectored(cx, bufs)
+        let this = self.project();
+        let poll = this.inner.poll_write_vectored(cx, bufs);
+
+        if let Poll::Ready(Ok(inner)) = &poll {
+            *this.offset += *inner as u64;
+        }
+
+        poll
     }
 }
-- 
2.43.0


From 5bc0db53e53e6ed885adf06aeed1f4c7e8e110fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 08/19] fix: reject an archive comment too long for its 16-bit
 length

The length was truncated whilst the whole comment was still written.
---
 src/base/write/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..42bbb30 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::Result;
+use crate::error::{Result, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -187,6 +187,10 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<W> {
+        let comment_length = match &self.comment_opt {
+            Some(comment) => comment.len().try_into().map_err(|_| ZipError::CommentTooLarge)?,
+            None => 0,
+        };
         let cd_offset = self.writer.offset();
 
         for entry in &self.cd_entries {
@@ -258,7 +262,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length: comment_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From 287f8f0525c4c9d7b2625e0a49ad628f4d0d32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 09/19] fix: escalate to ZIP64 when the central directory
 itself exceeds 4 GiB

The size was clamped to 0xFFFFFFFF without the ZIP64 record which holds the real one.
---
 src/base/write/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 42bbb30..faafb07 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -207,6 +207,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            } else {
+                self.is_zip64 = true;
+            }
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From fc66b3b2ee71000be7471e88fdb83df61710d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 10/19] fix: do not record an entry which was refused for being
 one too many

The record was pushed before the TooManyFiles error was returned, so closing the
archive afterwards wrote 65536 records under a count of 65535.
---
 src/base/write/entry_stream.rs | 4 ++--
 src/base/write/entry_whole.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..cf0ae49 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -270,9 +270,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             lh_offset,
         };
 
-        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -280,6 +279,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
                 *self.is_zip64 = true;
             }
         }
+        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
 
         Ok(())
     }
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..404a53e 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -226,9 +226,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
 
-        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.writer.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -236,6 +235,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.writer.is_zip64 = true;
             }
         }
+        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         Ok(())
     }
 }
-- 
2.43.0


From 422a68d6837be3b9dfe13eb325aaf8a6e0d354dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 11/19] fix: replace a date component when it is set again

The setters or-ed into the existing bits, so setting a component twice, or on a
builder made from an existing date, mixed both values.
---
 src/date/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..9768045 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -27,35 +27,35 @@ impl ZipDateTimeBuilder {
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
         let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From 5ce42caed368baaaa7befde161d058a5d302aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 12/19] fix: drop a stale ZIP64 extra field when an entry is
 written again

Readers use the first such field, so the sizes and offset of the archive the entry
was copied from took precedence over the ones just written.
---
 src/base/write/entry_stream.rs | 3 +++
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index cf0ae49..ef4438a 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,6 +105,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // An entry copied from another archive may still hold the ZIP64 field which described it there.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 404a53e..d0b53ef 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -154,6 +154,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             self.compress().await;
         }
 
+        // An entry copied from another archive may still hold the ZIP64 field which described it there.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         self.entry.compressed_size = self.data.len() as u64;
         self.enforce_zip64_sizes()?;
 
-- 
2.43.0


From 7e3d9e5a37ee1f7cd3e5735166ab188d67902573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 13/19] fix: store a size of exactly 0xFFFFFFFF in the ZIP64
 field if the entry has one

The field held only the offset then, which readers took to be the size.
---
 src/base/write/entry_whole.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d0b53ef..4080c80 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -62,8 +62,11 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        // If the offset needs a ZIP64 field then a size of 0xFFFFFFFF would be read as also being stored within it.
+        let needs_offset = self.lh_offset > NON_ZIP64_MAX_SIZE.into();
+        let max_size: u64 = if needs_offset { NON_ZIP64_MAX_SIZE as u64 - 1 } else { NON_ZIP64_MAX_SIZE.into() };
+        let uncompressed_larger = self.entry.uncompressed_size > max_size;
+        let compressed_larger = self.entry.compressed_size > max_size;
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
@@ -158,9 +161,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
 
         self.entry.compressed_size = self.data.len() as u64;
-        self.enforce_zip64_sizes()?;
-
         self.lh_offset = self.writer.writer.offset();
+        self.enforce_zip64_sizes()?;
         self.enforce_zip64_offset()?;
 
         if let Some(builder) = self.builder {
-- 
2.43.0


From 14e6659d6f0a9570efdbd12ed8011039b051b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 14/19] fix: end the stream of an archive without entries
 instead of erroring

---
 src/base/read/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 151533d..c4e6a58 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -22,7 +22,8 @@ use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
 use crate::spec::consts::{
-    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH,
+    ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE,
 };
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -214,6 +215,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // An archive without entries has no central directory headers.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From 0a0acee91cbba6cc8b3a95eefe470d07bb9dfdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 15/19] fix: add the Unicode field although one of an unknown
 version is present

---
 src/base/write/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index faafb07..564af84 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -300,13 +300,16 @@ where
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -317,13 +320,16 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From cab8bb05d9fc3ac1da04416bb2407bee481a4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:30 +0000
Subject: [PATCH 16/19] fix: store an offset of exactly 0xFFFFFFFF in the ZIP64
 field if the sizes need one

---
 src/base/write/entry_whole.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 4080c80..9f74f12 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -86,7 +86,10 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        // If the sizes need a ZIP64 field then an offset of 0xFFFFFFFF would be read as also being stored within it.
+        let max_offset: u64 =
+            if self.builder.is_some() { NON_ZIP64_MAX_SIZE as u64 - 1 } else { NON_ZIP64_MAX_SIZE.into() };
+        if self.lh_offset <= max_offset {
             return Ok(());
         }
 
-- 
2.43.0


From dceec7b981260008a5ce1d94198bac3a140edc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 17/19] Revert "fix: count the ZIP64 disk start number as the 4
 bytes it is written with"

This reverts commit 04fa3888d9dda71522fb91316ac867d165c93065.
---
 src/spec/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/header.rs b/src/spec/header.rs
index 93577d1..f7c4392 100644
--- a/src/spec/header.rs
+++ b/src/spec/header.rs
@@ -75,7 +75,7 @@ impl Zip64ExtendedInformationExtraField {
         self.uncompressed_size.map(|_| 8).unwrap_or_default()
             + self.compressed_size.map(|_| 8).unwrap_or_default()
             + self.relative_header_offset.map(|_| 8).unwrap_or_default()
-            + self.disk_start_number.map(|_| 4).unwrap_or_default()
+            + self.disk_start_number.map(|_| 8).unwrap_or_default()
     }
 }
 
-- 
2.43.0


From d6b3d01376c846e9391576c7cbb640dd7cb1063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 18/19] Revert "fix: keep an empty extra field at the end of
 the extra field data"

This reverts commit 60fb9eec7c17c8210aeb90a3319949f196790e29.
---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 1c85a1a..d5fb95f 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -267,7 +267,7 @@ impl Zip64EndOfCentralDirectoryLocator {
 pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut cursor = 0;
     let mut extra_fields = Vec::new();
-    while cursor + 4 <= data.len() {
+    while cursor + 4 < data.len() {
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-- 
2.43.0


From 93ca8450ec81fb46c09fda4d33006455d04e3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 19/19] Revert "fix: report the remaining bytes of a truncated
 extra field without underflow"

This reverts commit ea55ebea3fd0059bc9a5a53fcee269cc7e4be651.
---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index d5fb95f..422d468 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0

