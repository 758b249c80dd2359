From 27b5676cfb1695ea0ef1dc1f7b361a7993a57004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 01/39] fraos: storage tuning knobs for deterministic
 simulation, behind cfg(dst)

---
 fraos/src/dst.rs           | 22 ++++++++++++++++++++++
 fraos/src/growable_mmap.rs | 20 ++++++++++++++++++--
 fraos/src/lib.rs           |  4 ++++
 3 files changed, 44 insertions(+), 2 deletions(-)
 create mode 100644 fraos/src/dst.rs

diff --git a/fraos/src/dst.rs b/fraos/src/dst.rs
new file mode 100644
index 0000000..8b120e3
--- /dev/null
+++ b/fraos/src/dst.rs
@@ -0,0 +1,22 @@
+//! Knobs for deterministic simulation, only compiled with `--cfg dst`: they override the storage tuning constants, so
+//! that map growth, rotation and consolidation are reached in short histories.
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+pub struct Knob(AtomicUsize);
+
+impl Knob {
+    /// 0 restores the built-in value.
+    pub fn set(&self, value: usize) {
+        self.0.store(value, Ordering::Relaxed);
+    }
+
+    pub(crate) fn get(&self) -> Option<usize> {
+        match self.0.load(Ordering::Relaxed) {
+            0 => None,
+            value => Some(value),
+        }
+    }
+}
+
+pub static MAX_MMAPS_COUNT: Knob = Knob(AtomicUsize::new(0));
+pub static MIN_MMAP_BYTES: Knob = Knob(AtomicUsize::new(0));
diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 39bfcb3..99fdc9a 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -11,6 +11,22 @@ use std::sync::{RwLock, RwLockWriteGuard};
 const MAX_MMAPS_COUNT: usize = 2048;
 const MIN_MMAP_BYTES: usize = 4096 * 128;
 
+fn max_mmaps_count() -> usize {
+    #[cfg(dst)]
+    if let Some(count) = crate::dst::MAX_MMAPS_COUNT.get() {
+        return count;
+    }
+    MAX_MMAPS_COUNT
+}
+
+fn min_mmap_bytes() -> usize {
+    #[cfg(dst)]
+    if let Some(bytes) = crate::dst::MIN_MMAP_BYTES.get() {
+        return bytes;
+    }
+    MIN_MMAP_BYTES
+}
+
 /// Head and body of file
 struct InactiveMmaps {
     index: IndexOnMmaps,
@@ -273,7 +289,7 @@ impl GrowableMmap {
         &self,
         mut storage_guard: RwLockWriteGuard<Storage>,
     ) -> Result<(), FraosError> {
-        if storage_guard.inactive_mmaps.maps.len() <= MAX_MMAPS_COUNT {
+        if storage_guard.inactive_mmaps.maps.len() <= max_mmaps_count() {
             return Ok(());
         }
 
@@ -321,7 +337,7 @@ impl GrowableMmap {
     fn get_new_mmap_size(&self, add: usize) -> usize {
         match self.file {
             None => add,
-            Some(_) => max(add, MIN_MMAP_BYTES),
+            Some(_) => max(add, min_mmap_bytes()),
         }
     }
 
diff --git a/fraos/src/lib.rs b/fraos/src/lib.rs
index a3ff4f7..c30edd8 100644
--- a/fraos/src/lib.rs
+++ b/fraos/src/lib.rs
@@ -18,6 +18,8 @@
 //! db.put(&value).unwrap();
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 #[cfg(test)]
 #[macro_use(quickcheck)]
 extern crate quickcheck_macros;
@@ -25,6 +27,8 @@ extern crate core;
 
 mod appender;
 mod database;
+#[cfg(dst)]
+pub mod dst;
 mod error;
 mod flatfile;
 mod growable_mmap;
-- 
2.43.0


From b21cbd5302c1fa619c174dcc576f673ad72020f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 02/39] fix: fraos reads past the end of the log return nothing

A record became readable by its sequence number before len() and last() included it, and sequence numbers whose
index offset overflows panicked or read some other record.
---
 fraos/src/seqno.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..c558f21 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,6 +88,11 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
+        // a record is there only once the size says so: an append in progress publishes its bytes before
+        if seqno >= self.len() {
+            return Ok(None);
+        }
+
         let offset = seqno * Self::SIZE_OF_USIZE * 2;
 
         let result = self.inner.get_data(offset, |mmap| {
-- 
2.43.0


From 4629611d5b567f24d081e6ba22ae49db180e8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 03/39] fix: fraos shrinks its files only when the last handle
 is dropped

Dropping any clone truncated the files under the active maps of the others: later appends were lost or ended the
process with SIGBUS.
---
 fraos/src/database.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..45ea48e 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -11,6 +11,14 @@ pub struct Database {
     flatfile: Arc<FlatFile>,
     seqno_index: Arc<SeqNoIndex>,
     write_lock: Arc<Mutex<()>>,
+    _closer: Arc<Closer>,
+}
+
+/// Shared by all clones of a database: gives the unused tail of the files back when the last of them is dropped.
+/// As long as any is left the tail is mapped and may be written to.
+struct Closer {
+    flatfile: Arc<FlatFile>,
+    seqno_index: Arc<SeqNoIndex>,
 }
 
 impl Database {
@@ -62,11 +70,16 @@ impl Database {
         let flatfile = Arc::new(FlatFile::new(flatfile_path, existing_length, writable)?);
 
         let write_lock = Arc::new(Mutex::new(()));
+        let _closer = Arc::new(Closer {
+            flatfile: flatfile.clone(),
+            seqno_index: seqno_index.clone(),
+        });
 
         Ok(Database {
             flatfile,
             seqno_index,
             write_lock,
+            _closer,
         })
     }
 
@@ -161,7 +174,7 @@ impl Database {
     }
 }
 
-impl Drop for Database {
+impl Drop for Closer {
     fn drop(&mut self) {
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
-- 
2.43.0


From 3ad3b43933e67a01c5d207f9b70245d9e920f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 04/39] fix: fraos read-only opening does not create the
 database directory

It made a writer that opens the database at the same time fail, and left an empty directory behind.
---
 fraos/src/database.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 45ea48e..1a187a3 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -35,6 +35,9 @@ impl Database {
         let path = path.as_ref();
 
         if !path.exists() {
+            if !writable {
+                return Err(FraosError::FileError(FileError::PathNotFound));
+            }
             std::fs::create_dir(path).map_err(|err| {
                 FraosError::FileError(FileError::FileOpen(path.to_path_buf(), err))
             })?;
-- 
2.43.0


From 080a26de4d4942e31a634234b4179f5f1a04081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 05/39] fix: fraos recovers the end of its index by looking at
 every entry

After a power loss during an append the index can have a hole: later entries written back, earlier ones not. The
binary search then either missed the end or was skipped altogether (last entry not zero), and stale entries stayed
behind the end to resurface after the next crash. The same happens to a copy taken during an append.
---
 fraos/src/error.rs |   6 ++-
 fraos/src/seqno.rs | 103 +++++++++++++++++++++------------------------
 2 files changed, 52 insertions(+), 57 deletions(-)

diff --git a/fraos/src/error.rs b/fraos/src/error.rs
index 4d26a4e..0328b1f 100644
--- a/fraos/src/error.rs
+++ b/fraos/src/error.rs
@@ -16,6 +16,8 @@ pub enum FileError {
     Shrink(io::Error),
     /// Failed to get file metadata
     Metadata(io::Error),
+    /// Failed to read a file
+    Read(io::Error),
 }
 
 impl Display for FileError {
@@ -28,6 +30,7 @@ impl Display for FileError {
             FileError::PathNotDir => write!(f, "path is file, not folder"),
             FileError::Extend(error) => write!(f, "failed to extend a database file: {}", error),
             FileError::Metadata(error) => write!(f, "failed to get file metadata: {}", error),
+            FileError::Read(error) => write!(f, "failed to read a database file: {}", error),
             FileError::Shrink(error) => write!(f, "failed to shrink file size: {}", error),
         }
     }
@@ -38,7 +41,8 @@ impl error::Error for FileError {
         match self {
             FileError::FileOpen(_, source)
             | FileError::Extend(source)
-            | FileError::Metadata(source) => Some(source),
+            | FileError::Metadata(source)
+            | FileError::Read(source) => Some(source),
             _ => None,
         }
     }
diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index c558f21..4441eac 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -1,7 +1,12 @@
 use crate::appender::Appender;
-use crate::error::{FraosError, MmapError};
+use crate::error::{FileError, FraosError, MmapError};
 use crate::FraosError::EmptyRecordAppended;
-use std::{mem::size_of, path::PathBuf};
+use std::{
+    fs::OpenOptions,
+    io::{BufReader, ErrorKind, Read},
+    mem::size_of,
+    path::{Path, PathBuf},
+};
 
 /// Index from the sequential number of a record to its location in a flatfile.
 pub(crate) struct SeqNoIndex {
@@ -17,21 +22,50 @@ impl SeqNoIndex {
     ///
     /// * `path` - the path to the file. It will be created if not exists.
     pub fn new(path: Option<PathBuf>, writable: bool) -> Result<Self, FraosError> {
-        let mut appender =
-            Appender::new(path.clone(), None, writable).map(|inner| Self { inner })?;
-        let (_, last_len) = match appender.last()? {
-            None => return Ok(appender),
-            Some(some) => some,
+        let existing_length = match &path {
+            None => None,
+            Some(path) => Some(Self::recover(path, writable)?),
         };
 
-        if last_len == 0 {
-            // the storage wasn't shrink to fit and we need to find where the index ends
-            let actual_len = appender.find_actual_end()?;
-            appender = Appender::new(path, Some(2 * Self::SIZE_OF_USIZE * actual_len), writable)
-                .map(|inner| Self { inner })?;
+        Appender::new(path, existing_length, writable).map(|inner| Self { inner })
+    }
+
+    /// Find out how long the index is, in bytes. If the storage is still open or wasn't closed properly the file has
+    /// a tail that doesn't belong to the index. It starts with the first zero length, but it isn't all zeros: of an
+    /// append interrupted by a power loss later entries may have been written and earlier ones not (and in a copy
+    /// taken during an append later parts are newer). Anything but looking at every entry can therefore miss the end,
+    /// and the tail has to be cut off before anything is appended.
+    fn recover(path: &Path, writable: bool) -> Result<usize, FraosError> {
+        let mut options = OpenOptions::new();
+        options.read(true);
+        if writable {
+            options.write(true).create(true);
+        };
+        let file = options
+            .open(path)
+            .map_err(|err| FraosError::FileError(FileError::FileOpen(path.to_path_buf(), err)))?;
+
+        let mut reader = BufReader::with_capacity(1 << 16, &file);
+        let mut entry = [0u8; Self::SIZE_OF_USIZE * 2];
+        let mut length = 0;
+        loop {
+            match reader.read_exact(&mut entry) {
+                Ok(()) => {}
+                Err(err) if err.kind() == ErrorKind::UnexpectedEof => break,
+                Err(err) => return Err(FraosError::FileError(FileError::Read(err))),
+            }
+            if entry[Self::SIZE_OF_USIZE..].iter().all(|byte| *byte == 0) {
+                break;
+            }
+            length += entry.len();
         }
 
-        Ok(appender)
+        if writable {
+            file.set_len(length as u64)
+                .map_err(|err| FraosError::FileError(FileError::Shrink(err)))?;
+        }
+
+        Ok(length)
     }
 
     /// Add records to index. This function will block if another write is still
@@ -68,13 +102,6 @@ impl SeqNoIndex {
         Ok(Some(current_seqno))
     }
 
-    pub fn get_length_at(&self, at: usize) -> Result<usize, FraosError> {
-        Ok(self
-            .get_offset_and_length(at)?
-            .ok_or(FraosError::IndexFileDamaged)?
-            .1)
-    }
-
     #[allow(unused)]
     pub fn get_offset_at(&self, at: usize) -> Result<usize, FraosError> {
         Ok(self
@@ -150,42 +177,6 @@ impl SeqNoIndex {
     pub(crate) fn mmaps_count(&self) -> Result<usize, FraosError> {
         self.inner.mmaps_count()
     }
-
-    // The seqno index contains pairs (offset, length), offsets grow monotonically, lengths are always non-zero
-    // If the storage is still open or the storage wasn't shrink to fit properly while dropped it might have tailing zeros
-    // This way to find out what is the actual storage size and what is indexed we need to find the actual end if seqno is not empty.
-    // We utilize binary search to find last non zero value par. This is the actual end
-    pub(crate) fn find_actual_end(&self) -> Result<usize, FraosError> {
-        let mut start = 0;
-        let len = self.len();
-        let mut end = self.len();
-
-        // empty index was created or index is empty
-        if self.get_length_at(start)? == 0 || end == 0 {
-            return Ok(0);
-        }
-
-        // all elements are non-zero
-        if self.get_length_at(end.saturating_sub(1))? != 0 {
-            return Ok(end);
-        }
-
-        // if index is empty we checked already
-        while start < len.saturating_sub(1) {
-            // we checked before that we have at least one zero and it is ok to access start + 1
-            if self.get_length_at(start + 1)? == 0 {
-                return Ok(start + 1);
-            }
-            let mid = (start + end) / 2;
-            if self.get_length_at(mid)? == 0 {
-                end = mid;
-            } else {
-                start = mid;
-            }
-        }
-
-        Err(FraosError::IndexFileDamaged)
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 37db6048743e39ef87565fe8b3bf892d850bd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 06/39] fix: a failed fraos append leaves no trace

The bounds were extended and the maps exchanged before the data was written and flushed: after a failure the maps
disagreed with the size, later records were stored where reads did not find them (or the process died), and a map that
could not be made read-only was lost together with its records. What a failed append had written stayed in the file
and passed for records when it was opened again. An append also reported failure when only consolidating the maps
had failed.
---
 fraos/src/growable_mmap.rs | 188 ++++++++++++++++++++-----------------
 fraos/src/shared_mmap.rs   |  25 ++++-
 2 files changed, 125 insertions(+), 88 deletions(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 99fdc9a..fd878b9 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -5,7 +5,6 @@ use memmap2::{MmapMut, MmapOptions};
 use std::cmp::max;
 
 use std::fs::File;
-use std::mem::swap;
 use std::sync::{RwLock, RwLockWriteGuard};
 
 const MAX_MMAPS_COUNT: usize = 2048;
@@ -45,6 +44,15 @@ struct Storage {
     active_map: Option<ActiveMmap>,
 }
 
+impl Storage {
+    fn len(&self) -> usize {
+        match &self.active_map {
+            None => self.inactive_mmaps.index.len(),
+            Some(mmap) => mmap.bounds.global_chunk_end(),
+        }
+    }
+}
+
 /// the struct has an active mutable mmap (tail) and inactive prefix
 /// if we have enough space we add records to the active mmap
 /// if not we slice the active mmap to the actual end of writes and put it to inactive mmaps
@@ -108,10 +116,7 @@ impl GrowableMmap {
                 description: err.to_string(),
             }
         })?;
-        match &storage_guard.active_map {
-            None => Ok(storage_guard.inactive_mmaps.index.len()),
-            Some(mmap) => Ok(mmap.bounds.global_chunk_end()),
-        }
+        Ok(storage_guard.len())
     }
 
     pub fn grow_and_apply<F>(&self, extension: usize, f: F) -> Result<(), FraosError>
@@ -128,89 +133,109 @@ impl GrowableMmap {
             }
         })?;
 
-        let start_write_from = match &mut storage_guard.active_map {
-            None => {
-                let new_mmap_size = self.get_new_mmap_size(extension);
-                // inactive size
-                let already_mapped = storage_guard.inactive_mmaps.index.len();
+        let storage = &mut *storage_guard;
+        let result = self.write_and_publish(storage, extension, f);
 
-                // create mmap and flush
-                let new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+        if let Err(err) = result {
+            self.discard_unpublished(storage);
+            return Err(err);
+        }
 
-                // create index on active mmap
-                let mut single_mmap_index = MmapChunkAddressMapper::new(already_mapped);
-                single_mmap_index
-                    .append_relative_end(extension)
-                    .map_err(FraosError::IndexError)?;
+        // the data is there; consolidating the maps is tried again at the next append if it fails now
+        let _ = self.rearrange_mmaps(storage_guard);
 
-                storage_guard.active_map = Some(ActiveMmap {
-                    len: new_mmap_size,
-                    mmap: new_mmap,
-                    bounds: single_mmap_index,
-                });
+        Ok(())
+    }
 
-                0usize
-            }
-            Some(active_mmap) => {
-                let current_mmap_end = active_mmap.bounds.size();
-
-                // if we have enough space use active mmap
-                if current_mmap_end + extension < active_mmap.len {
-                    active_mmap
-                        .bounds
-                        .append_relative_end(current_mmap_end + extension)
-                        .map_err(FraosError::IndexError)?;
-                    current_mmap_end
-                } else {
-                    let new_mmap_size = self.get_new_mmap_size(extension);
-                    // offset is inactive part + current active part
-                    let already_mapped = active_mmap.bounds.global_chunk_end();
-
-                    let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
-
-                    // replace active mmap with new mmap
-                    swap(&mut new_mmap, &mut active_mmap.mmap);
-                    active_mmap.len = new_mmap_size;
-
-                    let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
-                    new_bounds
-                        .append_relative_end(extension)
-                        .map_err(FraosError::IndexError)?;
-                    swap(&mut new_bounds, &mut active_mmap.bounds);
-
-                    // add old replaced active mmap to inactive mmaps
-                    storage_guard
-                        .inactive_mmaps
-                        .index
-                        .append(new_bounds)
-                        .map_err(FraosError::IndexError)?;
-                    storage_guard.inactive_mmaps.maps.push(
-                        SharedMmap::new(
-                            new_mmap
-                                .make_read_only()
-                                .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?,
-                        )
-                        .slice(..current_mmap_end),
-                    );
-
-                    0usize
-                }
+    /// The bounds are changed only after the data is written and flushed, so that readers and later appends see
+    /// nothing of an append that fails.
+    fn write_and_publish<F>(
+        &self,
+        storage: &mut Storage,
+        extension: usize,
+        f: F,
+    ) -> Result<(), FraosError>
+    where
+        F: Fn(&mut [u8]) -> Result<(), FraosError>,
+    {
+        let write = |mmap: &mut MmapMut, start_write_from: usize| {
+            let result = f(&mut mmap.as_mut()[start_write_from..]).and_then(|_| {
+                mmap.flush()
+                    .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))
+            });
+
+            if result.is_err() {
+                mmap.as_mut()[start_write_from..start_write_from + extension].fill(0);
             }
+
+            result
         };
 
-        match storage_guard.active_map.as_mut() {
-            None => return Err(FraosError::DataFileDamaged),
-            Some(active_mmap) => {
-                f(&mut active_mmap.mmap.as_mut()[start_write_from..])?;
+        if let Some(active_mmap) = &mut storage.active_map {
+            let current_mmap_end = active_mmap.bounds.size();
+
+            // if we have enough space use active mmap
+            if current_mmap_end + extension < active_mmap.len {
+                write(&mut active_mmap.mmap, current_mmap_end)?;
 
-                active_mmap
-                    .mmap
-                    .flush()
-                    .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))?;
+                return active_mmap
+                    .bounds
+                    .append_relative_end(current_mmap_end + extension)
+                    .map_err(FraosError::IndexError);
             }
         }
 
-        self.rearrange_mmaps(storage_guard)
+        let new_mmap_size = self.get_new_mmap_size(extension);
+        // offset is inactive part + current active part
+        let already_mapped = storage.len();
+
+        let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+        write(&mut new_mmap, 0)?;
+
+        // create index on active mmap
+        let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
+        new_bounds
+            .append_relative_end(extension)
+            .map_err(FraosError::IndexError)?;
+
+        // replace active mmap with new mmap
+        let old_mmap = storage.active_map.replace(ActiveMmap {
+            len: new_mmap_size,
+            mmap: new_mmap,
+            bounds: new_bounds,
+        });
+
+        // add old replaced active mmap to inactive mmaps
+        if let Some(old_mmap) = old_mmap {
+            let old_mmap_end = old_mmap.bounds.size();
+
+            storage
+                .inactive_mmaps
+                .index
+                .append(old_mmap.bounds)
+                .map_err(FraosError::IndexError)?;
+            storage
+                .inactive_mmaps
+                .maps
+                .push(SharedMmap::from_mut(old_mmap.mmap).slice(..old_mmap_end));
+        }
+
+        Ok(())
+    }
+
+    /// Takes back what a failed append may have written behind the end. It must not stay in the file: the next append
+    /// may be shorter, and what is left of the failed one would pass for a part of it when the file is opened again.
+    fn discard_unpublished(&self, storage: &mut Storage) {
+        let end = storage.len();
+
+        if let Some(file) = &self.file {
+            if file.set_len(end as u64).is_ok() {
+                // the spare part of the active map is gone, the next append starts a new one
+                if let Some(active_mmap) = &mut storage.active_map {
+                    active_mmap.len = active_mmap.bounds.size();
+                }
+            }
+        }
     }
 
     pub fn get_ref_and_apply<F, U>(&self, address: usize, f: F) -> Result<Option<U>, FraosError>
@@ -273,14 +298,7 @@ impl GrowableMmap {
         match &self.file {
             None => Ok(()),
             Some(file) => file
-                .set_len(
-                    storage_guard
-                        .active_map
-                        .as_ref()
-                        .map(|mmap| mmap.bounds.global_chunk_end())
-                        .unwrap_or(storage_guard.inactive_mmaps.index.len())
-                        as u64,
-                )
+                .set_len(storage_guard.len() as u64)
                 .map_err(|err| FraosError::FileError(FileError::Shrink(err))),
         }
     }
diff --git a/fraos/src/shared_mmap.rs b/fraos/src/shared_mmap.rs
index ab8492c..1d09338 100644
--- a/fraos/src/shared_mmap.rs
+++ b/fraos/src/shared_mmap.rs
@@ -1,14 +1,23 @@
-use memmap2::Mmap;
+use memmap2::{Mmap, MmapMut};
 use std::{
     ops::{Bound::*, RangeBounds},
     slice,
     sync::Arc,
 };
 
+/// What keeps the memory mapped. A mapping that was written to is kept as it is: making it read-only can fail, and
+/// would then lose it.
+#[derive(Debug)]
+#[allow(dead_code)]
+enum Mapping {
+    ReadOnly(Mmap),
+    Written(MmapMut),
+}
+
 /// A structure that implements a view into memory mapping.
 #[derive(Debug, Clone)]
 pub struct SharedMmap {
-    mmap: Arc<Mmap>,
+    mmap: Arc<Mapping>,
     len: usize,
     slice: *const u8,
 }
@@ -18,7 +27,17 @@ impl SharedMmap {
         let len = mmap.len();
         let slice = mmap.as_ptr();
         SharedMmap {
-            mmap: Arc::new(mmap),
+            mmap: Arc::new(Mapping::ReadOnly(mmap)),
+            len,
+            slice,
+        }
+    }
+
+    pub(crate) fn from_mut(mmap: MmapMut) -> SharedMmap {
+        let len = mmap.len();
+        let slice = mmap.as_ptr();
+        SharedMmap {
+            mmap: Arc::new(Mapping::Written(mmap)),
             len,
             slice,
         }
-- 
2.43.0


From 061e4a52f22cfa6c6c28a98010cc77d3bc7cb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 07/39] fix: fraos makes recovered index entries durable when
 it opens

Entries recovered after a process crash may exist in the page cache only. An append after them was acknowledged
without flushing them; a power loss then cut the log before the acknowledged records.
---
 fraos/src/error.rs | 6 +++++-
 fraos/src/seqno.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/fraos/src/error.rs b/fraos/src/error.rs
index 0328b1f..52eb1d9 100644
--- a/fraos/src/error.rs
+++ b/fraos/src/error.rs
@@ -18,6 +18,8 @@ pub enum FileError {
     Metadata(io::Error),
     /// Failed to read a file
     Read(io::Error),
+    /// Failed to flush a file
+    Sync(io::Error),
 }
 
 impl Display for FileError {
@@ -31,6 +33,7 @@ impl Display for FileError {
             FileError::Extend(error) => write!(f, "failed to extend a database file: {}", error),
             FileError::Metadata(error) => write!(f, "failed to get file metadata: {}", error),
             FileError::Read(error) => write!(f, "failed to read a database file: {}", error),
+            FileError::Sync(error) => write!(f, "failed to flush a database file: {}", error),
             FileError::Shrink(error) => write!(f, "failed to shrink file size: {}", error),
         }
     }
@@ -42,7 +45,8 @@ impl error::Error for FileError {
             FileError::FileOpen(_, source)
             | FileError::Extend(source)
             | FileError::Metadata(source)
-            | FileError::Read(source) => Some(source),
+            | FileError::Read(source)
+            | FileError::Sync(source) => Some(source),
             _ => None,
         }
     }
diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index 4441eac..d9564f7 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -63,6 +63,10 @@ impl SeqNoIndex {
         if writable {
             file.set_len(length as u64)
                 .map_err(|err| FraosError::FileError(FileError::Shrink(err)))?;
+            // after a process crash the last entries may only be in the page cache; appends don't flush what is
+            // before them, and losing these entries later would lose everything after them
+            file.sync_all()
+                .map_err(|err| FraosError::FileError(FileError::Sync(err)))?;
         }
 
         Ok(length)
-- 
2.43.0


From 3baa802dbe6794cc9b93d5cf94b74c4aa32b5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 08/39] fix: fraos append reports a full disk instead of dying
 of it

Setting the length of a data file left a hole, and storing into the memory map over a hole of a full disk raises
SIGBUS. The new part of the file is now written with zeros before it is mapped.
---
 fraos/src/growable_mmap.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index fd878b9..80a13e2 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -5,6 +5,7 @@ use memmap2::{MmapMut, MmapOptions};
 use std::cmp::max;
 
 use std::fs::File;
+use std::io::{Read, Seek, SeekFrom};
 use std::sync::{RwLock, RwLockWriteGuard};
 
 const MAX_MMAPS_COUNT: usize = 2048;
@@ -359,10 +360,19 @@ impl GrowableMmap {
         }
     }
 
+    /// The zeros are really written: setting the length alone leaves a hole, and when the disk is full storing into the
+    /// map over a hole is not an error but kills the process.
+    fn allocate(mut file: &File, offset: usize, len: usize) -> std::io::Result<()> {
+        file.set_len((offset + len) as u64)?;
+        file.seek(SeekFrom::Start(offset as u64))?;
+        std::io::copy(&mut std::io::repeat(0).take(len as u64), &mut file)?;
+        Ok(())
+    }
+
     fn create_mmap(&self, new_mmap_size: usize, offset: usize) -> Result<MmapMut, FraosError> {
         if let Some(file) = &self.file {
             // that fills the file with zeros
-            file.set_len((offset + new_mmap_size) as u64)
+            Self::allocate(file, offset, new_mmap_size)
                 .map_err(|err| FraosError::FileError(FileError::Extend(err)))?;
             unsafe {
                 MmapOptions::new()
-- 
2.43.0


From 818be5e42f21bde6e62e483a8cf79e0d0e3c349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 09/39] fix: indexed-log-map indexes concurrent appends of a
 key in log order

Two appends of one key could reach the key index in the opposite order of the log, leaving the key at its older value.
---
 indexed-log-map/src/storage.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..113c889 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -3,6 +3,7 @@ use anyhow::{anyhow, bail, Context, Result};
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::marker::PhantomData;
+use std::sync::Mutex;
 
 /// Indexed log map inherits the properties of fraos::Database (thread safety) and allows
 /// access by key
@@ -10,6 +11,8 @@ pub struct IndexedLogMap<Key: Serialize + DeserializeOwned, Value: Serialize + D
     storage: fraos::Database,
     // this is an option since we might want to take a look at
     key_to_seqno: Option<sled::Db>,
+    // held while a record is added to both the log and the key index: the key index must end up with the last record
+    append_lock: Mutex<()>,
     phantom_data: PhantomData<(Key, Value)>,
 }
 
@@ -55,6 +58,7 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         Ok(Self {
             storage,
             key_to_seqno,
+            append_lock: Mutex::new(()),
             phantom_data: Default::default(),
         })
     }
@@ -69,6 +73,11 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         let mut serialized_value = Vec::new();
         ciborium::ser::into_writer(&value, &mut serialized_value)
             .context("Failed to encode cbor data")?;
+        let _append_guard = self
+            .append_lock
+            .lock()
+            .map_err(|err| anyhow!("append lock is poisoned: {}", err))?;
+
         let records = vec![serialized_value.as_slice()];
         let index = self
             .storage
-- 
2.43.0


From 001e9c4399ec31924eb28ab9996af40407d47b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:48 +0000
Subject: [PATCH 10/39] fix: multiverse iteration visits every block of a
 height

---
 multiverse/src/visitor/depth_ordered.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..3fdef17 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,10 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            // take only one entry: dropping a `drain` would discard the
+            // other entries that are at the same block number
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From a495d8729c696a6225a96138fc05006000a50f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:48 +0000
Subject: [PATCH 11/39] fix: multiverse selection ignores references kept to
 removed blocks

---
 multiverse/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..02cf046 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -470,15 +470,14 @@ where
     fn ancestor(&self, tip: &EntryRef<K>, min_depth: usize) -> Option<EntryRef<K>> {
         let mut ancestor = tip.clone();
         for _ in 0..min_depth {
-            let entry = self
-                .all
-                .get(&ancestor)
-                .expect("Entry should be already there at this point");
+            // the parent reference of an entry may outlive the parent if
+            // there are still references to it outside of the multiverse
+            let entry = self.all.get(&ancestor)?;
 
             ancestor = entry.parent.upgrade()?;
         }
 
-        Some(ancestor)
+        self.all.contains_key(&ancestor).then_some(ancestor)
     }
 
     /// function to compute the [`BestBlock`] based on the given parameters
-- 
2.43.0


From c6a8ccaa84c6769786a10f85fc7bc3670ff833e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:48 +0000
Subject: [PATCH 12/39] fix: multiverse removal that fails in the storage can
 be repeated

---
 multiverse/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 02cf046..7ef7afb 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -407,6 +407,15 @@ where
     }
 
     pub fn remove(&mut self, key: &EntryRef<K>) -> Result<V, MultiverseError> {
+        let counter = match self.all.get(key) {
+            Some(entry) => entry.value.block_number(),
+            None => return Err(MultiverseError::NotFound),
+        };
+
+        // remove from the storage first so that nothing has changed in memory
+        // if this fails and it is possible to try again
+        self.db_remove(counter, key.borrow())?;
+
         let entry = if let Some(entry) = self.all.remove(key) {
             entry
         } else {
@@ -446,8 +455,6 @@ where
             }
         }
 
-        let counter = entry.value.block_number();
-
         if let btree_map::Entry::Occupied(mut occupied) = self.ordered.entry(counter) {
             occupied.get_mut().remove(key);
             if occupied.get().is_empty() {
@@ -456,7 +463,6 @@ where
         };
 
         let _removed = self.tips.remove(key);
-        self.db_remove(counter, key.borrow())?;
 
         Ok(entry.value)
     }
-- 
2.43.0


From cde5f37edf877d9e9d9db6a25bba083b3e19f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 13/39] fix: multiverse reports a storage error when it opens
 instead of panicking

---
 multiverse/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7ef7afb..a972ccc 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -157,15 +157,19 @@ where
     /// The `domain` is used as an identifier within the Db.
     ///
     #[inline]
-    fn new_with(db: sled::Db, domain: &str, store_from: BlockNumber) -> Self {
+    fn try_new_with(
+        db: sled::Db,
+        domain: &str,
+        store_from: BlockNumber,
+    ) -> Result<Self, MultiverseError> {
         let all = HashMap::new();
         let ordered = BTreeMap::new();
         let tips = HashSet::new();
         let roots = HashSet::new();
 
-        let tree = db.open_tree(domain).unwrap();
+        let tree = db.open_tree(domain)?;
 
-        Self {
+        Ok(Self {
             _db: db,
             tree,
             all,
@@ -173,7 +177,12 @@ where
             tips,
             roots,
             store_from,
-        }
+        })
+    }
+
+    #[cfg(test)]
+    fn new_with(db: sled::Db, domain: &str, store_from: BlockNumber) -> Self {
+        Self::try_new_with(db, domain, store_from).unwrap()
     }
 
     /// create a pre-configured to be temporary Multiverse
@@ -186,7 +195,7 @@ where
         // and deleted on drop
         let db = sled::Config::new().temporary(true).open()?;
 
-        Ok(Self::new_with(db, "temporary", BlockNumber::MIN))
+        Self::try_new_with(db, "temporary", BlockNumber::MIN)
     }
 
     fn db_remove(&mut self, counter: BlockNumber, key: &K) -> Result<bool, MultiverseError> {
@@ -291,7 +300,7 @@ where
         domain: &str,
         store_from: BlockNumber,
     ) -> Result<Self, MultiverseError> {
-        let mut multiverse = Self::new_with(db, domain, store_from);
+        let mut multiverse = Self::try_new_with(db, domain, store_from)?;
 
         for entry in multiverse.tree.iter().values() {
             let formatted_ir = entry?;
-- 
2.43.0


From fa2d20bda3ddef840fda4151d0796fd1e5e4c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 14/39] fix: multiverse takes back a block whose removal failed
 half way

---
 multiverse/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index a972ccc..c406363 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -344,12 +344,16 @@ where
         )
     )]
     pub fn insert(&mut self, variant: V) -> Result<(), MultiverseError> {
-        if !self.db_insert(variant.block_number(), variant.id(), &variant)? {
-            if self.all.contains_key(&EntryRef::new(variant.id().clone())) {
-                return Ok(());
-            } else {
-                tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
-            }
+        let original = self.db_insert(variant.block_number(), variant.id(), &variant)?;
+
+        // the entry may be in memory even if it was not in the storage: a
+        // removal that reported an error may have removed it from there
+        if self.all.contains_key(variant.id()) {
+            return Ok(());
+        }
+
+        if !original {
+            tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
         }
 
         self.insert_in_memory(variant)
-- 
2.43.0


From 63e8d0f552b9782bf65dcae20ae92fd7622fa8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 15/39] fix: RandomImprove forgot to renew the indices when the
 available inputs are replaced

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From 64c4a5fef96928ef38f52e9b46cd952598cb3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 16/39] fix: a failed RandomImprove selection used up the
 inputs it had drawn

---
 .../src/algorithms/random_improve.rs           | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..8f7eeb7 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -70,6 +70,9 @@ impl InputSelectionAlgorithm for RandomImprove {
 
         let mut chosen_indices = HashSet::<usize>::new();
 
+        // only kept once the selection has succeeded
+        let mut available_indices = self.available_indices.clone();
+
         let mut rng = rand::thread_rng();
         let mut policy_ids_to_asset_names = asset_output_balance
             .values()
@@ -87,7 +90,7 @@ impl InputSelectionAlgorithm for RandomImprove {
             let token = TokenId::new(format!("{policy_id}:{asset_name}"));
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -116,7 +119,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -132,15 +135,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while input_balance < output_balance {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -159,6 +161,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From a012091e0a000fc02e73dbba867a32f8f8a3f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 17/39] fix: RandomImprove counted the inputs of equal outputs
 several times and failed on outputs of zero

---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 8f7eeb7..1ad46d0 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -7,7 +7,7 @@ use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -218,14 +218,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // the inputs associated to each of the outputs, two of which may be equal
+    let mut associated_indices: Vec<Vec<usize>> = vec![vec![]; outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -254,19 +255,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -296,12 +291,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 659a937c4dd309c7652fee1ee0f104797820f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 18/39] fix: RandomImprove looked for assets under policy:name
 and never found those with a fingerprint

---
 .../src/algorithms/random_improve.rs          | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 1ad46d0..fd7f867 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -3,10 +3,9 @@ use crate::common::{InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
+use dcspark_core::{Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::cmp::Ordering;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
@@ -74,20 +73,15 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut available_indices = self.available_indices.clone();
 
         let mut rng = rand::thread_rng();
-        let mut policy_ids_to_asset_names = asset_output_balance
+        let mut output_assets = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
-
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+            .cloned()
+            .collect::<Vec<TransactionAsset>>();
+        // by policy and asset name
+        output_assets.sort();
+
+        for output_asset in output_assets.into_iter() {
+            let token = output_asset.fingerprint;
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut available_indices,
-- 
2.43.0


From 70f567e28aa05d22267bf1799e0d1752afaa10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 19/39] fix: an improvement of RandomImprove could leave its
 output uncovered

---
 utxo-selection/src/algorithms/random_improve.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index fd7f867..9e54769 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -256,6 +256,12 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let needed = by_output(output).expect("filtered above");
+            let amount_of = |index: usize| {
+                by_input(&available_inputs[index]).expect("relevant inputs have an amount")
+            };
+            let mut added: dcspark_core::Value<Regulated> =
+                associated.iter().map(|i| amount_of(*i)).sum();
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -275,7 +281,10 @@ where
 
                     move_closer && not_exceed_max
                 };
-                if should_improve {
+                // the output has to remain covered
+                let improved = &added - &amount_of(*i) + &amount_of(*j);
+                if should_improve && improved >= needed {
+                    added = improved;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From 2fb5e8612a32fbf346c1bbeef09b39064d6bf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 20/39] fix: RandomImprove did not select the inputs needed for
 the fee

---
 utxo-selection/src/algorithms/random_improve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 9e54769..b6decd2 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -1,5 +1,5 @@
 use crate::algorithm::InputSelectionAlgorithm;
-use crate::common::{InputOutputSetup, InputSelectionResult};
+use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
@@ -128,7 +128,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
             if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From 3d9077d862078feca293665240a838071466e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 21/39] fix: Thermostat divided by zero when an input costs
 nothing

---
 utxo-selection/src/algorithms/thermostat.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..937711d 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -96,10 +96,14 @@ impl Thermostat {
         // in two in order to preserver distribution
         let reserved_room = reserved_room * 2;
 
-        Ok(estimate
+        let remaining_size = estimate
             .max_size()?
-            .saturating_sub(estimate.current_size()?.saturating_add(reserved_room))
-            / size_of_one_input)
+            .saturating_sub(estimate.current_size()?.saturating_add(reserved_room));
+
+        // an input that costs nothing can always be added
+        Ok(remaining_size
+            .checked_div(size_of_one_input)
+            .unwrap_or(usize::MAX))
     }
 
     fn add_input(&mut self, input: UTxODetails) {
-- 
2.43.0


From fe0a5f166b7376e2755ddeef723cd9f3881e1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 22/39] fix: Thermostat panicked on the excess of an asset only
 a fixed input holds

---
 utxo-selection/src/algorithms/thermostat.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 937711d..59f3985 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -43,6 +43,8 @@ pub struct Thermostat {
 
     balance: Balance<Regulated>,
     asset_balance: HashMap<TokenId, Balance<Regulated>>,
+    // assets of the fixed inputs, that the available UTxOs may not have
+    fixed_assets: HashMap<TokenId, TransactionAsset>,
     config: ThermostatAlgoConfig,
     available_utxos: UTxOStore,
 }
@@ -61,6 +63,7 @@ impl Thermostat {
             selected_inputs_value: Value::zero(),
             balance: Balance::Balanced,
             asset_balance: HashMap::new(),
+            fixed_assets: HashMap::new(),
             config,
             available_utxos: Default::default(),
         }
@@ -312,7 +315,12 @@ impl Thermostat {
                     let (policy_id, asset_name) = utxos
                         .get_asset_ids(&asset)
                         .cloned()
-                        .expect("Always expect to retrieve the policy_id/asset_name");
+                        .or_else(|| {
+                            self.fixed_assets
+                                .get(&asset)
+                                .map(|fixed| (fixed.policy_id.clone(), fixed.asset_name.clone()))
+                        })
+                        .ok_or_else(|| anyhow!("Unknown policy_id/asset_name of {asset}"))?;
 
                     entry.assets.push(TransactionAsset {
                         policy_id,
@@ -573,6 +581,7 @@ impl Thermostat {
         self.selected_inputs_value = Value::zero();
         self.balance = Balance::Balanced;
         self.asset_balance = HashMap::new();
+        self.fixed_assets = HashMap::new();
     }
 }
 
@@ -614,6 +623,7 @@ impl InputSelectionAlgorithm for Thermostat {
                 .entry(token.clone())
                 .or_insert_with(Balance::zero) -= asset.quantity.clone();
         }
+        self.fixed_assets = input_output_setup.input_asset_balance.clone();
         self.selected_inputs_value += &input_output_setup.input_balance;
         self.balance += &input_output_setup.input_balance;
         self.balance -= &input_output_setup.output_balance;
-- 
2.43.0


From 0c19c79c2600d8aa05eb649fd7f2dd60a20ef425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 23/39] fix: Thermostat lost half of an asset when its change
 was too small to be split

---
 utxo-selection/src/algorithms/thermostat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 59f3985..39a1ec4 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -432,7 +432,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -442,6 +442,8 @@ impl Thermostat {
                             continue;
                         }
 
+                        asset.quantity -= quantity;
+
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-- 
2.43.0


From 3b14964eb843d5064cf51a145b746fd70914d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 24/39] fix: an unbalanced Thermostat selection lost the inputs
 it had selected

---
 utxo-selection/src/algorithms/thermostat.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 39a1ec4..55ba89c 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -492,7 +492,7 @@ impl Thermostat {
     >(
         &mut self,
         estimator: &mut Estimate,
-    ) -> anyhow::Result<()> {
+    ) -> anyhow::Result<UTxOStore> {
         let mut utxos = self.available_utxos.clone();
 
         let mut assets: Vec<_> = self.asset_balance.keys().cloned().collect();
@@ -571,8 +571,7 @@ impl Thermostat {
 
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
-        self.available_utxos = utxos;
-        Ok(())
+        Ok(utxos)
     }
 
     pub fn reset(&mut self) {
@@ -631,7 +630,7 @@ impl InputSelectionAlgorithm for Thermostat {
         self.balance -= &input_output_setup.output_balance;
         self.optional_change_address = input_output_setup.change_address;
 
-        self.select(estimator)?;
+        let remaining_utxos = self.select(estimator)?;
 
         let mut input_balance = Value::zero();
         let mut input_asset_balance = HashMap::new();
@@ -683,6 +682,8 @@ impl InputSelectionAlgorithm for Thermostat {
             Balance::Excess(excess) => excess.clone(),
         };
 
+        self.available_utxos = remaining_utxos;
+
         Ok(InputSelectionResult {
             input_balance,
             input_asset_balance,
-- 
2.43.0


From 8dfdea2a90006f24f5540e81a8b8352a557395a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 25/39] fix: Thermostat took the changes of assets from the fee

---
 utxo-selection/src/algorithms/thermostat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 55ba89c..1f6b158 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -569,6 +569,10 @@ impl Thermostat {
             self.balance_excess_of_asset(&utxos, asset, estimator)?;
         }
 
+        // the changes of the assets may have taken from what was selected for
+        // the transaction and its fee
+        utxos = self.select_input_for_main_until_balanced(utxos, estimator)?;
+
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
         Ok(utxos)
-- 
2.43.0


From d1178babb6cb02281f6edc9a68b7539b8a917685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 26/39] fix: Thermostat split changes below the minimum value
 of an output

---
 utxo-selection/src/algorithms/thermostat.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 1f6b158..f1df6ec 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -421,6 +421,8 @@ impl Thermostat {
         for (token_id, change) in self.changes.iter_mut() {
             if let Some(total_current_balance) = utxos.get_balance_of(token_id) {
                 let mut new = change.clone();
+                // neither half needs more than the whole
+                let min_ada_required = estimate.min_value_for_output(change.clone())?;
 
                 if let Some(asset) = change.assets.get_mut(0) {
                     // be careful to re-accumulate the newly created UTxO otherwise we would
@@ -442,13 +444,19 @@ impl Thermostat {
                             continue;
                         }
 
+                        new.value = &value - &fee_new;
+                        let value = &change.value - &new.value - &fee_for_output;
+
+                        if new.value < min_ada_required || value < min_ada_required {
+                            continue;
+                        }
+
                         asset.quantity -= quantity;
 
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-                        new.value = &value - &fee_new;
-                        change.value = &change.value - &new.value - &fee_for_output;
+                        change.value = value;
                         self.balance += &fee_for_output;
 
                         estimate.add_output(new.clone())?;
@@ -472,7 +480,13 @@ impl Thermostat {
 
                     if current > pivot {
                         new.value = &value - &fee_new;
-                        change.value = &change.value - &new.value - &fee_for_output;
+                        let value = &change.value - &new.value - &fee_for_output;
+
+                        if new.value < min_ada_required || value < min_ada_required {
+                            continue;
+                        }
+
+                        change.value = value;
                         self.balance += &fee_for_output;
 
                         self.extra_changes.push(new.clone());
-- 
2.43.0


From f2cc5a9718eda4860d8b7b013df1d53e4f5c69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 27/39] fix: Thermostat split off changes with none of the
 asset

---
 utxo-selection/src/algorithms/thermostat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index f1df6ec..830bd7f 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -436,6 +436,11 @@ impl Thermostat {
                         *quantity = (quantity.clone() / 2).truncate();
                         let quantity = quantity.clone();
 
+                        // an amount of one can't be split
+                        if quantity <= Value::zero() {
+                            continue;
+                        }
+
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
                         let value = (&new.value / 2).truncate();
-- 
2.43.0


From a3769203906fe3e2df37b957eae2e2d1c95b4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 28/39] fix: cardano source connects when the machine is up for
 less than the tip pace

---
 blockchain-source/src/cardano/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/blockchain-source/src/cardano/mod.rs b/blockchain-source/src/cardano/mod.rs
index a653160..0ae2e8c 100644
--- a/blockchain-source/src/cardano/mod.rs
+++ b/blockchain-source/src/cardano/mod.rs
@@ -171,10 +171,8 @@ async fn request_handler(
     network_config: NetworkConfiguration,
     config: NetworkDescription,
 ) {
-    // initially set this to a time in the past, which guarantees an event in the tip fetch.
-    let mut last_tip_event = Instant::now()
-        .checked_sub(tip_update_pace)
-        .expect("overflow when substracting from Instant::now");
+    // initially there is none, which guarantees an event in the tip fetch.
+    let mut last_tip_event = None;
 
     let mut handle = Some(handle);
 
@@ -236,7 +234,7 @@ async fn block_fetch(
     handle: &mut NetworkHandle,
     from: Vec<Point>,
     channel: &mpsc::Sender<Result<Event, anyhow::Error>>,
-    last_tip_event: &mut Instant,
+    last_tip_event: &mut Option<Instant>,
     tip_update_pace: Duration,
     network_config: &NetworkConfiguration,
     ignore_first_block: bool,
@@ -274,7 +272,7 @@ async fn block_fetch(
         return Ok(());
     }
 
-    if last_tip_event.elapsed() >= tip_update_pace {
+    if last_tip_event.map_or(true, |last| last.elapsed() >= tip_update_pace) {
         if channel
             .send(Ok(CardanoNetworkEvent::Tip(tip.clone())))
             .await
@@ -283,7 +281,7 @@ async fn block_fetch(
             debug!("can't send tip event, request response channel was closed");
         };
 
-        *last_tip_event = Instant::now();
+        *last_tip_event = Some(Instant::now());
     }
 
     info!(%from, %tip, "making block range request");
-- 
2.43.0


From fa8046cecd44928326e18384d41ecccdea5a6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 29/39] fix: cardano source ends a request at a malformed block
 instead of panicking or skipping it

---
 blockchain-source/src/cardano/event.rs | 2 +-
 blockchain-source/src/cardano/mod.rs   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/event.rs b/blockchain-source/src/cardano/event.rs
index 8a038d4..7ea012b 100644
--- a/blockchain-source/src/cardano/event.rs
+++ b/blockchain-source/src/cardano/event.rs
@@ -106,7 +106,7 @@ impl<Tip> GetNextFrom for CardanoNetworkEvent<BlockEvent, Tip> {
 impl BlockEvent {
     pub(crate) fn from_serialized_block(raw_block: &[u8], era: &Era) -> anyhow::Result<Self> {
         let block = cml_multi_era::MultiEraBlock::from_explicit_network_cbor_bytes(raw_block)
-            .expect("failed to deserialize block");
+            .map_err(|error| anyhow!("failed to deserialize block: {error:?}"))?;
         let header = &block.header();
         Ok(BlockEvent {
             raw_block: raw_block.to_vec(),
diff --git a/blockchain-source/src/cardano/mod.rs b/blockchain-source/src/cardano/mod.rs
index 0ae2e8c..51e739a 100644
--- a/blockchain-source/src/cardano/mod.rs
+++ b/blockchain-source/src/cardano/mod.rs
@@ -307,6 +307,8 @@ async fn block_fetch(
         )
         .context(critical_error!());
 
+        let malformed = event.is_err();
+
         if channel
             .send(event.map(CardanoNetworkEvent::Block))
             .await
@@ -314,6 +316,9 @@ async fn block_fetch(
         {
             return Err(anyhow::anyhow!("request response channel was closed"));
         }
+
+        // the blocks after this one can't be forwarded without leaving a gap
+        anyhow::ensure!(!malformed, "invalid block received from the node");
     }
 
     debug!("block range request finished successfully");
-- 
2.43.0


From 85f436b485d1132be0631e97b643194da54938ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 30/39] fix: fork handling source rolls back to the point it
 started from

---
 blockchain-source/src/multiverse/rollback.rs | 68 +++++++++++++++-----
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..a34c986 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -24,6 +24,9 @@ pub struct ForkHandlingSource<K, V, InnerSource, Event> {
     confirmation_depth: usize,
     confirmed: Option<K>,
     last: Option<K>,
+    // if we started with an empty db: the rollback event to the point where we started to pull
+    // from, if it was given. Not needed anymore when there is a confirmed block.
+    start: Option<Option<Event>>,
     events: Vec<Event>,
 }
 
@@ -58,6 +61,7 @@ impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> {
             source: inner_source,
             confirmed: selected.map(|k| k.inner().clone()),
             last,
+            start: None,
             events: Default::default(),
         }
     }
@@ -116,6 +120,8 @@ where
                 let confirmed = self.multiverse.get(confirmed).unwrap();
 
                 checkpoints.insert(confirmed.next_from().unwrap());
+            } else if let Some(Some(Event::Rollback(start))) = &self.start {
+                checkpoints.insert(start.clone());
             }
 
             if let Some(from) = from {
@@ -140,6 +146,11 @@ where
             None => return Ok(None),
         };
 
+        // once there is a confirmed block there can't be a rollback to the point before it
+        if self.confirmed.is_some() {
+            self.start = None;
+        }
+
         let parent_id = block.parent_id().clone();
         let block_id = block.id().clone();
 
@@ -155,16 +166,15 @@ where
             self.confirmed.replace(stable);
         }
 
-        let previous_tip = self.last.replace(block_id.clone());
-
-        let new_event = if previous_tip
+        let new_event = if self
+            .last
             .as_ref()
             // if the blocks are contiguous, we are always in the same branch
             .map(|last| last == &parent_id)
             .unwrap_or(false)
         {
             Event::InnerEvent(block)
-        } else if let Some(mut previous_branch_cursor) = previous_tip {
+        } else if let Some(mut previous_branch_cursor) = self.last.clone() {
             // algorithm:
             //
             // Traverse the previous branch backwards, building a hashset with all the hashes in
@@ -178,7 +188,11 @@ where
             //
             // If it is, we push a rollback event to this block on the stack.
             //
+            // If there is no such block, then both branches must start from the point where we started
+            // to pull from, and we push a rollback event to it.
+            //
             // Then events are popped until the stack is empty.
+            let mut events = vec![];
             let mut blocks_in_previous_branch = HashSet::new();
 
             while let Some(entry) = self.multiverse.get(&previous_branch_cursor) {
@@ -186,35 +200,55 @@ where
                 previous_branch_cursor = entry.parent_id().clone();
             }
 
-            let mut current_branch_cursor = block_id;
+            let mut current_branch_cursor = block_id.clone();
+
+            loop {
+                let Some(entry) = self.multiverse.get(&current_branch_cursor) else {
+                    match &self.start {
+                        Some(Some(Event::Rollback(start)))
+                            if current_branch_cursor == previous_branch_cursor =>
+                        {
+                            events.push(Event::Rollback(start.clone()));
+                            break;
+                        }
+                        // it probably means the confirmation depth is not big enough
+                        _ => anyhow::bail!("no common ancestor between branches"),
+                    }
+                };
 
-            while let Some(entry) = self.multiverse.get(&current_branch_cursor) {
                 if blocks_in_previous_branch.contains(entry.id()) {
-                    self.events
-                        .push(Event::Rollback(entry.next_from().unwrap()));
+                    events.push(Event::Rollback(entry.next_from().unwrap()));
                     break;
                 }
 
-                self.events.push(Event::InnerEvent(entry.clone()));
+                events.push(Event::InnerEvent(entry.clone()));
                 current_branch_cursor = entry.parent_id().clone();
             }
 
+            self.events = events;
+
             // this will always be a rollback event.
-            //
-            // if it's empty, it probably means the confirmation depth is not big enough, in which
-            // case there is nothing to do.
-            //
-            // we could return an error though.
             self.events
                 .pop()
                 .expect("no common ancestor between branches")
         } else {
-            // if the db is empty, send a rollback event to the `from` argument, just to be
+            // if the db is empty, send a rollback event to the `from` argument (if any), just to be
             // safe
-            self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            match from {
+                Some(from) => {
+                    self.events.push(Event::InnerEvent(block));
+                    self.start = Some(Some(Event::Rollback(from.clone())));
+                    Event::Rollback(from.clone())
+                }
+                None => {
+                    self.start = Some(None);
+                    Event::InnerEvent(block)
+                }
+            }
         };
 
+        self.last.replace(block_id);
+
         Ok(Some(new_event))
     }
 }
-- 
2.43.0


From cf48183d5a325345d4ee13d6a7ec32dfa202fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 31/39] fix: multiverse source returns the first confirmed
 block and does not stop when it is behind

---
 blockchain-source/src/multiverse/mod.rs | 104 +++++++++++++-----------
 1 file changed, 58 insertions(+), 46 deletions(-)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 9d33e16..434a7d2 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -65,20 +65,10 @@ where
 
     #[tracing::instrument(skip(self), fields(self.confirmed = ?self.confirmed))]
     async fn pull(&mut self, from: &Self::From) -> Result<Option<Self::Event>> {
-        let confirmed_with_parent = self
-            .confirmed
-            .as_ref()
-            .and_then(|confirmed| self.multiverse.get(confirmed))
-            .and_then(|confirmed| confirmed.next_from().map(|point| (confirmed, point)))
-            .map(|(confirmed, point)| {
-                let parent = self
-                    .multiverse
-                    .get(confirmed.parent_id())
-                    .and_then(V::next_from);
-
-                Ok::<_, anyhow::Error>((parent, confirmed.clone(), point))
-            })
-            .transpose()?;
+        // the stable block that follows `from` is known already: return it (again)
+        if let Some(block) = self.next_stable(from) {
+            return Ok(Some(block));
+        }
 
         // For Cardano, this is a bit of a waste of cpu cycles during the initial (long) sync, but
         // should be fine once we are caught up. The reason is that there will be already a block
@@ -100,23 +90,9 @@ where
                     checkpoints.push(v);
                 }
 
-                if let Some((parent, confirmed, confirmed_point)) = confirmed_with_parent {
-                    if from.as_ref() == parent.as_ref() {
-                        // if `from` is the parent from the confirmed block, just return the confirmed
-                        // block
-                        //
-                        // doing this for greater depths is possible, but there is no quick way of
-                        // checking if the block belongs to the same branch right now.
-                        return Ok(Some(confirmed));
-                    } else if let Some(from) = from {
-                        anyhow::ensure!(
-                            from == &confirmed_point,
-                            "non continuous pull not supported yet"
-                        );
-
-                        // TODO: re-check this
-                        checkpoints.push(from.clone());
-                    }
+                // all the branches have the confirmed block in common
+                if let Some(confirmed) = self.confirmed_point() {
+                    checkpoints.push(confirmed);
                 } else if let Some(from) = from {
                     checkpoints.push(from.clone());
                 }
@@ -138,29 +114,65 @@ where
                     block
                 }
             }
-            None => return Ok(None),
+            None => {
+                // after a restart the multiverse may be behind `from`, in which case it catches up
+                // as long as there are blocks to pull.
+                anyhow::ensure!(
+                    self.confirmed.is_none() || self.is_stored(from),
+                    "non continuous pull not supported yet"
+                );
+
+                return Ok(None);
+            }
         };
 
         let new_stable_position =
             multiverse_insert_and_gc(block, &mut self.multiverse, self.confirmation_depth)?;
 
-        if let Some(stable) = new_stable_position.filter(|stable| {
-            self.confirmed
-                .as_ref()
-                .map(|confirmed| stable != confirmed)
-                .unwrap_or(true)
-        }) {
-            let block = self
+        if let Some(stable) = new_stable_position {
+            self.confirmed.replace(stable);
+        }
+
+        Ok(self.next_stable(from))
+    }
+}
+
+impl<K, V, InnerSource> MultiverseSource<K, V, InnerSource>
+where
+    K: AsRef<[u8]> + Eq + Hash + Debug + Clone,
+    V: Variant<Key = K> + Clone + GetNextFrom,
+    V::From: PartialEq,
+{
+    fn confirmed_point(&self) -> Option<V::From> {
+        self.confirmed
+            .as_ref()
+            .and_then(|confirmed| self.multiverse.get(confirmed))
+            .and_then(V::next_from)
+    }
+
+    fn is_stored(&self, point: &Option<V::From>) -> bool {
+        point.is_some()
+            && self
                 .multiverse
-                .get(&stable)
-                .expect("select_best_root returned a block that is not inserted in the multiverse");
+                .iter()
+                .any(|block| block.next_from() == *point)
+    }
 
-            self.confirmed.replace(stable);
+    /// the confirmed block, if it is the one that follows `from`.
+    ///
+    /// doing this for greater depths is possible, but there is no quick way of
+    /// checking if the block belongs to the same branch right now.
+    fn next_stable(&self, from: &Option<V::From>) -> Option<V> {
+        let confirmed = self.multiverse.get(self.confirmed.as_ref()?)?;
+
+        let follows = match self.multiverse.get(confirmed.parent_id()) {
+            Some(parent) => from.is_some() && parent.next_from() == *from,
+            // this is the very first block, so it comes right after the point where we started to
+            // pull from. Unless `from` is one of the blocks above it.
+            None => !self.is_stored(from),
+        };
 
-            Ok(Some(block.clone()))
-        } else {
-            Ok(None)
-        }
+        follows.then(|| confirmed.clone())
     }
 }
 
-- 
2.43.0


From de3d74c62bb3d18391e123600b7fceab097f3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 32/39] fix: multiverse sources start over when the node left
 everything they know

---
 blockchain-source/src/multiverse/mod.rs      | 8 ++++++++
 blockchain-source/src/multiverse/rollback.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 434a7d2..425abcd 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -101,6 +101,14 @@ where
             };
 
         let block = match self.source.pull(&inner_from).await? {
+            // none of the tips may be in the chain anymore, start over.
+            None if self.confirmed.is_none() && from.is_none() && !inner_from.is_empty() => {
+                self.source.pull(&vec![]).await?
+            }
+            block => block,
+        };
+
+        let block = match block {
             Some(block) => {
                 if block.is_blockchain_tip() {
                     return Ok(Some(block));
diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index a34c986..eda41ed 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -132,6 +132,14 @@ where
         };
 
         let block = match self.source.pull(&inner_from).await? {
+            // none of the tips may be in the chain anymore, start over.
+            None if self.confirmed.is_none() && matches!(self.start, Some(None)) => {
+                self.source.pull(&vec![]).await?
+            }
+            block => block,
+        };
+
+        let block = match block {
             Some(block) => {
                 if block.is_blockchain_tip() {
                     return Ok(Some(Event::InnerEvent(block)));
-- 
2.43.0


From 7499147591efdd100c43a882f2b5f964a497c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 33/39] fix: multiverse sources refuse a block whose parent is
 missing

---
 blockchain-source/src/multiverse/mod.rs      | 23 +++++++++++++++++++-
 blockchain-source/src/multiverse/rollback.rs |  8 +++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 425abcd..fb8fe8e 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -116,7 +116,8 @@ where
 
                 // make sure we don't insert twice for now
                 // ideally, this shouldn't happen
-                if self.multiverse.get(block.id()).is_some() {
+                if self.multiverse.get(block.id()).is_some() || !connects(&block, &self.multiverse)
+                {
                     return Ok(None);
                 } else {
                     block
@@ -184,6 +185,26 @@ where
     }
 }
 
+/// check that there would be no missing blocks between the given one and the ones in the
+/// multiverse. If there are, they need to be pulled again.
+pub(crate) fn connects<K, V>(block: &V, multiverse: &multiverse::Multiverse<K, V>) -> bool
+where
+    K: AsRef<[u8]> + Eq + Hash + Debug + Clone,
+    V: Variant<Key = K>,
+{
+    let connects = multiverse.contains(block.parent_id())
+        || multiverse
+            .iter()
+            .next()
+            .map_or(true, |first| first.block_number() >= block.block_number());
+
+    if !connects {
+        tracing::warn!(id = ?block.id(), parent = ?block.parent_id(), "ignoring a block without its parent");
+    }
+
+    connects
+}
+
 pub(crate) fn multiverse_insert_and_gc<K, V>(
     event: V,
     multiverse: &mut multiverse::Multiverse<K, V>,
diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index eda41ed..b64f1e7 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -1,4 +1,7 @@
-use crate::{multiverse::multiverse_insert_and_gc, EventObject, GetNextFrom, PullFrom, Source};
+use crate::{
+    multiverse::{connects, multiverse_insert_and_gc},
+    EventObject, GetNextFrom, PullFrom, Source,
+};
 use anyhow::{anyhow, Result};
 use multiverse::{BestBlock, BestBlockSelectionRule, Variant};
 use serde::{de::DeserializeOwned, Serialize};
@@ -145,7 +148,8 @@ where
                     return Ok(Some(Event::InnerEvent(block)));
                 }
 
-                if self.multiverse.get(block.id()).is_some() {
+                if self.multiverse.get(block.id()).is_some() || !connects(&block, &self.multiverse)
+                {
                     return Ok(None);
                 } else {
                     block
-- 
2.43.0


From 2d9ba41253d5e810511777f06d4fc93dd8eddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 34/39] fix: a failure to prune a multiverse does not lose the
 block just pulled

---
 blockchain-source/src/multiverse/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index fb8fe8e..a187588 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -235,7 +235,11 @@ where
         for discarded in discarded {
             tracing::debug!(block_id = %discarded, "pruning branch");
 
-            multiverse.remove(&discarded)?;
+            // the block that was just inserted is not affected by this, and it is going to be
+            // tried again the next time
+            if let Err(error) = multiverse.remove(&discarded) {
+                tracing::warn!(block_id = %discarded, %error, "couldn't prune branch");
+            }
         }
     }
 
-- 
2.43.0


From a95484e99841dfaaae6a4ecbb627c797b0f28b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 35/39] fix: multiverse source makes a confirmed block durable
 before it is given out

---
 blockchain-source/src/multiverse/mod.rs | 6 ++++++
 multiverse/src/lib.rs                   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index a187588..bbc7ede 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -229,6 +229,12 @@ where
         })
     };
 
+    // make sure that from now on the confirmed block is always loaded together with its parent,
+    // otherwise it couldn't be told apart from the very first block.
+    if selected.is_some() && discarded.is_empty() {
+        multiverse.flush()?;
+    }
+
     {
         let _span =
                 tracing::span!(tracing::Level::DEBUG, "pruning discarded branches", num_discarded = %discarded.len()).entered();
diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index c406363..b44f199 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -235,6 +235,13 @@ where
         Ok(())
     }
 
+    /// make sure that everything done so far is persisted
+    pub fn flush(&self) -> Result<(), MultiverseError> {
+        self._db.flush()?;
+
+        Ok(())
+    }
+
     pub fn destroy(self) -> Result<(), MultiverseError> {
         tracing::warn!("Irreversibly LEVEL a multiverse");
 
-- 
2.43.0


From ce1265e416b4709efdae391a37b027b18d6781b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 36/39] fix: no change output of a negative value

When what is left after the fee did not pay for the change output itself,
SingleOutputChangeBalancer returned a change holding less than nothing.
---
 .../src/algorithms/balance_change_single_output.rs         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..d565ef3 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,13 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected, can't pay {} for the change with {}",
+                fee_for_change,
+                change.value
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From 169229ac1dd3b39fb40494660bff4e196eeee8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 37/39] fix: cardano source continues from the genesis parent
 when other points are given too

---
 blockchain-source/src/cardano/mod.rs | 33 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/blockchain-source/src/cardano/mod.rs b/blockchain-source/src/cardano/mod.rs
index 51e739a..4bb4eac 100644
--- a/blockchain-source/src/cardano/mod.rs
+++ b/blockchain-source/src/cardano/mod.rs
@@ -198,16 +198,26 @@ async fn request_handler(
 
         let mut current_handle = handle.take().unwrap();
 
-        let (from, ignore_first_block) = if from
-            == vec![Point::BlockHeader {
-                slot_nb: 0.into(),
-                hash: network_config.genesis_parent.clone(),
-            }] {
-            (vec![network_config.genesis.clone()], false)
-        } else {
-            (from, true)
+        // the node doesn't know the parent of the genesis block, so the request starts with the
+        // genesis block instead, unless there is a more recent point in the node's branch.
+        let genesis_parent = Point::BlockHeader {
+            slot_nb: 0.into(),
+            hash: network_config.genesis_parent.clone(),
         };
 
+        let (from, first_block) =
+            if from.contains(&genesis_parent) && !from.contains(&network_config.genesis) {
+                let from = from
+                    .into_iter()
+                    .filter(|point| *point != genesis_parent)
+                    .chain(std::iter::once(network_config.genesis.clone()))
+                    .collect();
+
+                (from, Some(network_config.genesis.clone()))
+            } else {
+                (from, None)
+            };
+
         if let Err(e) = block_fetch(
             &mut current_handle,
             from,
@@ -215,7 +225,7 @@ async fn request_handler(
             &mut last_tip_event,
             tip_update_pace,
             &network_config,
-            ignore_first_block,
+            first_block,
         )
         .await
         {
@@ -237,7 +247,8 @@ async fn block_fetch(
     last_tip_event: &mut Option<Instant>,
     tip_update_pace: Duration,
     network_config: &NetworkConfiguration,
-    ignore_first_block: bool,
+    // the block that is not known yet, even if it is the intersection
+    first_block: Option<Point>,
 ) -> Result<()> {
     let points: Result<Vec<_>> = from
         .into_iter()
@@ -284,6 +295,8 @@ async fn block_fetch(
         *last_tip_event = Some(Instant::now());
     }
 
+    let ignore_first_block = first_block != Some(Point::from(from.clone()));
+
     info!(%from, %tip, "making block range request");
 
     let mut block_fetcher = match handle.blockfetch.request_range(from, tip.point).await? {
-- 
2.43.0


From 4a92db09748c198c07b9139d0d8b427374f2a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 38/39] fix: fork handling source doesn't go back before the
 confirmed block

---
 blockchain-source/src/multiverse/rollback.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index b64f1e7..8830f3b 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -123,12 +123,15 @@ where
                 let confirmed = self.multiverse.get(confirmed).unwrap();
 
                 checkpoints.insert(confirmed.next_from().unwrap());
-            } else if let Some(Some(Event::Rollback(start))) = &self.start {
-                checkpoints.insert(start.clone());
-            }
+            } else {
+                if let Some(Some(Event::Rollback(start))) = &self.start {
+                    checkpoints.insert(start.clone());
+                }
 
-            if let Some(from) = from {
-                checkpoints.insert(from.clone());
+                // this may be older than the confirmed block, the blocks after it are gone by then
+                if let Some(from) = from {
+                    checkpoints.insert(from.clone());
+                }
             }
 
             checkpoints.into_iter().collect()
-- 
2.43.0


From 2ae884cebd1884c2c7200622e23ac96ce213f69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 39/39] fix: RandomImprove panicked on amounts that don't fit
 into 64 bits

---
 utxo-selection/src/algorithms/random_improve.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index b6decd2..c55d570 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -4,7 +4,7 @@ use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{Regulated, TokenId, UTxOStore};
-use deps::bigdecimal::ToPrimitive;
+use deps::bigdecimal::BigDecimal;
 use rand::Rng;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
@@ -270,14 +270,13 @@ where
                 let should_improve = {
                     let input = &available_inputs[*i];
                     let new_input = &available_inputs[*j];
-                    let cur = input.value.raw().to_u64().unwrap();
-                    let new = new_input.value.raw().to_u64().unwrap();
-                    let min = output.value.raw().to_u64().unwrap();
-                    let ideal = 2 * min;
-                    let max = 3 * min;
-                    let move_closer =
-                        (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
-                    let not_exceed_max = new < max;
+                    let cur = input.value.raw();
+                    let new = new_input.value.raw();
+                    let min = output.value.raw();
+                    let ideal = min * BigDecimal::from(2u64);
+                    let max = min * BigDecimal::from(3u64);
+                    let move_closer = (&ideal - new).abs() < (&ideal - cur).abs();
+                    let not_exceed_max = new < &max;
 
                     move_closer && not_exceed_max
                 };
-- 
2.43.0

