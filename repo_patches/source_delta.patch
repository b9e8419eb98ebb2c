From e3711aacba8e898c5b44d64026b9b17a6cd0590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 01/14] fix: announce the data descriptor in central directory
 flags too

The local headers have bit 3 (data descriptor follows the data) set, the
central directory headers of the same entries did not.
---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..60b73dc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -666,7 +666,7 @@ impl ReadState {
                 },
                 version_to_extract: ZIP64_VERSION_TO_EXTRACT.into(),
                 flags: structs::GpBitFlag {
-                    use_data_descriptor: false,
+                    use_data_descriptor: true,
                     language_encoding: true,
                 },
                 compression: structs::Compression::Store,
-- 
2.43.0


From f64632da5d34ac4a2fafe14806778da261bb4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 02/14] fix: count bytes written before a pending source in the
 position

When a read wrote something to the output and then met a source that was
not ready, the bytes were returned, but the reader position didn't move.
---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 60b73dc..53bc793 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -771,7 +771,7 @@ impl ReadState {
                     Poll::Pending if output.remaining() == initial_remaining => {
                         return Poll::Pending
                     }
-                    _ => return Poll::Ready(Ok(())),
+                    _ => break,
                 }
             };
         }
-- 
2.43.0


From 99108a0af9821c397344679fdf593ec2385dcbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 03/14] fix: don't lose bytes already written when computing a
 CRC fails

A read that wrote a part of the archive to the output and then failed while
computing a CRC for the next record returned the error: the bytes written
by the same call were lost for the caller.
---
 src/reader.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 53bc793..015d32e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -815,6 +815,12 @@ impl ReadState {
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining
+                        && entries[entry_index].crc32.is_none()
+                    {
+                        // Computing the CRC might fail -> return what was already written first
+                        break;
+                    }
                     zippity_ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
@@ -824,6 +830,12 @@ impl ReadState {
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining
+                        && entries[entry_index].crc32.is_none()
+                    {
+                        // Computing the CRC might fail -> return what was already written first
+                        break;
+                    }
                     zippity_ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
-- 
2.43.0


From c139d6a8cbaea455068abda913e5f40d71b6380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 04/14] fix: open a source again after a failed attempt to open
 it

A failed future returned by EntryData::get_reader() was kept and polled
again by the next read after its completion.
---
 src/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 015d32e..c4c78de 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,10 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            let reader = ready!(reader_future.as_mut().poll(ctx));
+            // The future has completed and must not be polled again even if it failed
+            pinned.set(ReaderPinned::Nothing);
+            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader?)));
         }
 
         match pinned.project() {
-- 
2.43.0


From 56cd75d27b6f65252b76492ae3cd30c77cf8cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 05/14] fix: start a failed seek of a source anew when it is
 retried

After a failed seek the reader thought that the seek is still in progress:
the retry only waited for its completion and hit the assertion on the
resulting position.
---
 src/crc_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..c5a803a 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From 39ce095052316db14e41d2eff16572a4c11bdd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 06/14] fix: keep failing when a read of an entry with wrong
 size is retried

The CRC of the wrong content was stored and the source was closed before
the size was verified. A retried read then opened the source again and
continued from there.
---
 src/reader.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c4c78de..3b986d4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -590,6 +590,16 @@ impl ReadState {
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
 
+            if self.chunk_processed_size != entry.size {
+                // Checked before anything is stored, so that retrying the read fails again
+                return Poll::Ready(Err(ReadError::SizeMismatch {
+                    entry_name: entry.name.clone(),
+                    expected_size: entry.size,
+                    actual_size: self.chunk_processed_size,
+                }
+                .into()));
+            }
+
             if let Some(actual_crc) = file_reader.get_crc32() {
                 if let Some(expected_crc) = entry.crc32
                     && expected_crc != actual_crc
@@ -606,16 +616,7 @@ impl ReadState {
 
             pinned.set(ReaderPinned::Nothing);
 
-            if self.chunk_processed_size == entry.size {
-                Poll::Ready(Ok(true)) // We're done with this state
-            } else {
-                Poll::Ready(Err(ReadError::SizeMismatch {
-                    entry_name: entry.name.clone(),
-                    expected_size: entry.size,
-                    actual_size: self.chunk_processed_size,
-                }
-                .into()))
-            }
+            Poll::Ready(Ok(true)) // We're done with this state
         } else {
             let written_chunk_size = remaining_before_poll - output.remaining();
             let buf_slice = output.filled();
-- 
2.43.0


From 1ba46a896d9228ab638517b48088b8bdf3f685d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 07/14] fix: Builder::size() after entries were changed by
 get_entries_mut()

Removing entries (or adding them directly to the map) left the total size
at its previous value, both in size() and in the check of the maximum.
---
 src/builder.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..6fab036 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -316,8 +316,8 @@ pub(crate) fn eocd_size() -> u64 {
 pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
-    /// Total size of the zip.
-    total_size: u64,
+    /// Total size of the zip, `None` if the entries might have been changed from outside.
+    total_size: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -372,7 +372,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: eocd_size(),
+            total_size: Some(eocd_size()),
         }
     }
 
@@ -394,6 +394,7 @@ impl<D: EntryData> Builder<D> {
             return Err(AddEntryError::TooLongEntryName { entry_name: name });
         }
         let headers_size = local_header_size(&name) + cd_header_size(&name);
+        let size_before = self.size();
 
         let map_vacant_entry = match self.entries.entry(name) {
             Entry::Vacant(e) => e,
@@ -407,9 +408,9 @@ impl<D: EntryData> Builder<D> {
         let data = data.into();
         self.total_size = match headers_size
             .checked_add(data.size())
-            .and_then(|s| s.checked_add(self.total_size))
+            .and_then(|s| s.checked_add(size_before))
         {
-            Some(size) => size,
+            Some(size) => Some(size),
             None => {
                 return Err(AddEntryError::TooLongZipFile {
                     entry_name: map_vacant_entry.into_key(),
@@ -426,13 +427,21 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size
+        self.total_size.unwrap_or_else(|| {
+            self.entries
+                .iter()
+                .map(|(name, entry)| {
+                    (local_header_size(name) + cd_header_size(name))
+                        .saturating_add(entry.data.size())
+                })
+                .fold(eocd_size(), u64::saturating_add)
+        })
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
     #[must_use]
     pub fn build(self) -> Reader<D> {
-        // All size calculations in this method add up to self.total_size, so they are guaranteed to not overflow.
+        // All size calculations in this method add up to self.size(), so they are guaranteed to not overflow.
         let mut offset: u64 = 0;
         let mut cd_size: u64 = 0;
         let entries = {
@@ -505,6 +514,7 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
+        self.total_size = None;
         &mut self.entries
     }
 }
-- 
2.43.0


From 953c4dde7b2e1940373e596cd2ea36bd05f8cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 08/14] fix: store the documented default timestamp 1980-01-01

Entries without a timestamp had all zeros stored, which means day 0 of
month 0, not a valid date.
---
 src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..d4335b9 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,23 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// Lowest representable value, 1980-01-01T00:00:00.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 0ec08bb7e29d853545ac897684276a50db692d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 09/14] fix: use the default for unrepresentable times in
 datetime*_or_default()

datetime_or_default() and datetime_system_or_default() kept the value set
before, if there was any.
---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6fab036..665b2a6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,15 +190,14 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
             datetime.hour(),
             datetime.minute(),
             datetime.second(),
-        );
-        self
+        )
     }
 
     /// Sets the entry to be a file.
-- 
2.43.0


From 136a40329857a638f0111e7ec401efe1e8981716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 10/14] fix: don't panic on system times out of the range of
 chrono

Conversion of a SystemTime with a timezone panicked on times far in the
future or past, including modification times that files can have.
---
 src/builder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 665b2a6..8ccfc90 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -5,6 +5,9 @@ use std::{
     time::SystemTime,
 };
 
+#[cfg(feature = "chrono")]
+use std::time::Duration;
+
 #[cfg(feature = "chrono")]
 use chrono::{Datelike, NaiveDateTime, TimeZone, Timelike};
 use indexmap::IndexMap;
@@ -534,7 +537,18 @@ where
 {
     use chrono::{DateTime, Utc};
 
+    // Every time farther from the epoch than this (about 1000 years) is out of the representable
+    // range in all timezones, and might be out of the range of chrono as well.
+    const MAX_DISTANCE: Duration = Duration::from_secs(1000 * 366 * 24 * 3600);
+
     move |system_time| {
+        let (Ok(distance) | Err(distance)) = system_time
+            .duration_since(SystemTime::UNIX_EPOCH)
+            .map_err(|e| e.duration());
+        if distance > MAX_DISTANCE {
+            return (0, 0, 0, 0, 0, 0);
+        }
+
         let naive = DateTime::<Utc>::from(system_time)
             .with_timezone(&tz)
             .naive_local();
-- 
2.43.0


From 3f99169d590ac5ccb30617bfa790a11e76b7c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 11/14] fix: don't panic when a cloned BytesStream is read

The cloned buffer had zero capacity, polling the clone hit an assertion.
---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..a9fdc46 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -15,7 +15,7 @@ use crate::{Reader, entry_data::EntryData, reader::READ_SIZE};
 ///
 /// This is useful for streaming the output of the ZIP reader, for example,
 /// to a network socket or other byte-based sink.
-#[derive(Clone, Debug)]
+#[derive(Debug)]
 #[pin_project]
 pub struct BytesStream<D: EntryData> {
     #[pin]
@@ -23,6 +23,13 @@ pub struct BytesStream<D: EntryData> {
     buffer: BytesMut,
 }
 
+impl<D: EntryData + Clone> Clone for BytesStream<D> {
+    fn clone(&self) -> Self {
+        // The buffer is always empty between calls, and its clone would have no capacity
+        BytesStream::new(self.reader.clone())
+    }
+}
+
 // TODO: Implement also std::async_iter::AsyncIterator, once it stablises
 impl<D: EntryData> Stream for BytesStream<D> {
     type Item = Result<Bytes>;
-- 
2.43.0


From 76dfb0b2c9d7c79ad1ab3ea2c0e74ece6511c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 12/14] fix: report short entry data when seeking in its
 missing part, instead of reading its end over and over

---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3b986d4..59901fb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -568,8 +568,14 @@ impl ReadState {
 
                     if read_buffer.filled().is_empty() {
                         // This means that we've skipped over the whole file.
-                        // -> the reported size was wrong (and we will return an error later).
-                        break;
+                        // -> the reported size was wrong. Has to be returned here, another read at the
+                        // end of the data might be pending and would bring us here over and over again.
+                        return Poll::Ready(Err(ReadError::SizeMismatch {
+                            entry_name: entry.name.clone(),
+                            expected_size: entry.size,
+                            actual_size: self.chunk_processed_size,
+                        }
+                        .into()));
                     }
                 }
             } else {
-- 
2.43.0


From bf8499236d26982557af239f8f3ffc4f13137a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 13/14] fix: Builder::size() after an entry was replaced
 through the reference returned by add_entry()

The total size was remembered together with the size of the last entry, but
the entry can be replaced by a clone of another one through the returned
reference, after which size() and the total size checks of add_entry() were
wrong. Remember the size without the last entry instead.
---
 src/builder.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8ccfc90..29d53c0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -320,8 +320,9 @@ pub(crate) fn eocd_size() -> u64 {
 pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
-    /// Total size of the zip, `None` if the entries might have been changed from outside.
-    total_size: Option<u64>,
+    /// Size of the zip without its last entry, `None` if the entries might have been changed from outside.
+    /// The last entry might have been changed through the reference returned by [`Builder::add_entry()`].
+    size_without_last: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -359,7 +360,7 @@ impl<D: EntryData + Debug> Debug for Builder<D> {
                     None => &"None",
                 },
             )
-            .field("total_size", &self.total_size)
+            .field("total_size", &self.size())
             .finish()
     }
 }
@@ -376,7 +377,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: Some(eocd_size()),
+            size_without_last: Some(eocd_size()),
         }
     }
 
@@ -410,17 +411,16 @@ impl<D: EntryData> Builder<D> {
         };
 
         let data = data.into();
-        self.total_size = match headers_size
+        if headers_size
             .checked_add(data.size())
             .and_then(|s| s.checked_add(size_before))
+            .is_none()
         {
-            Some(size) => Some(size),
-            None => {
-                return Err(AddEntryError::TooLongZipFile {
-                    entry_name: map_vacant_entry.into_key(),
-                });
-            }
-        };
+            return Err(AddEntryError::TooLongZipFile {
+                entry_name: map_vacant_entry.into_key(),
+            });
+        }
+        self.size_without_last = Some(size_before);
 
         let inserted =
             map_vacant_entry.insert(BuilderEntry::new(data, self.time_converter.clone()));
@@ -431,15 +431,18 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size.unwrap_or_else(|| {
-            self.entries
+        let entry_size = |(name, entry): (&String, &BuilderEntry<D>)| {
+            (local_header_size(name) + cd_header_size(name)).saturating_add(entry.data.size())
+        };
+
+        match self.size_without_last {
+            Some(size) => size.saturating_add(self.entries.last().map_or(0, entry_size)),
+            None => self
+                .entries
                 .iter()
-                .map(|(name, entry)| {
-                    (local_header_size(name) + cd_header_size(name))
-                        .saturating_add(entry.data.size())
-                })
-                .fold(eocd_size(), u64::saturating_add)
-        })
+                .map(entry_size)
+                .fold(eocd_size(), u64::saturating_add),
+        }
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
@@ -518,7 +521,7 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
-        self.total_size = None;
+        self.size_without_last = None;
         &mut self.entries
     }
 }
-- 
2.43.0


From 6396faa9512cc34f3a374376574941b710fd12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 14/14] fix: data over the reported size of an entry must not
 get into the archive

They took the place of what follows the entry, so a consumer that stops at the
announced size (such as a HTTP response with its Content-Length) got a damaged
archive without any error.
---
 src/reader.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 59901fb..a9192f3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -591,7 +591,37 @@ impl ReadState {
         }
 
         let remaining_before_poll = output.remaining();
-        ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
+        let missing = entry.size.saturating_sub(self.chunk_processed_size);
+        if missing >= remaining_before_poll as u64 {
+            ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
+        } else if missing > 0 {
+            // Data over the reported size must not get to the output, where they would take
+            // the place of what follows the entry
+            let limit = usize::try_from(missing).unwrap_or_else(|_| unreachable!());
+            let mut limited = ReadBuf::new(output.initialize_unfilled_to(limit));
+            ready!(
+                file_reader
+                    .as_mut()
+                    .poll_read(&entry.data, ctx, &mut limited)
+            )?;
+            let written = limited.filled().len();
+            output.advance(written);
+        } else {
+            // Everything was output, there should be no more data. Any are only measured for the error.
+            let mut read_buffer = get_read_buf(&mut self.staging_buffer);
+            loop {
+                read_buffer.clear();
+                ready!(
+                    file_reader
+                        .as_mut()
+                        .poll_read(&entry.data, ctx, &mut read_buffer)
+                )?;
+                if read_buffer.filled().is_empty() {
+                    break;
+                }
+                self.chunk_processed_size += read_buffer.filled().len() as u64;
+            }
+        }
 
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
-- 
2.43.0

