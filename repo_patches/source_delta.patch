From 9e2e44679fb1ad54650b1693a8f0e2837cce03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 01/34] fix: UTxOStore: account assets listed more than once in
 an output

---
 core/src/utxo_store.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/core/src/utxo_store.rs b/core/src/utxo_store.rs
index 0447578..5f5cae8 100644
--- a/core/src/utxo_store.rs
+++ b/core/src/utxo_store.rs
@@ -35,6 +35,15 @@ pub struct UTxOStoreMut {
     dictionary: HashMap<TokenId, (PolicyId, AssetName)>,
 }
 
+/// total quantity of the given asset in the UTxO: the asset may be listed more than once
+fn asset_quantity(utxo: &UTxODetails, token: &TokenId) -> Value<Regulated> {
+    utxo.assets
+        .iter()
+        .filter(|asset| &asset.fingerprint == token)
+        .map(|asset| &asset.quantity)
+        .sum()
+}
+
 impl UTxOSet {
     pub fn remove_from_asset(&mut self, pointer: &UtxoPointer) -> Option<Arc<UTxODetails>> {
         let utxo: Arc<UTxODetails> = self.set.remove(pointer)?;
@@ -42,12 +51,7 @@ impl UTxOSet {
         let value = if self.token_id == TokenId::MAIN {
             utxo.value.clone()
         } else {
-            utxo.assets
-                .iter()
-                .find(|ta| ta.fingerprint == self.token_id)
-                .map(|ta| &ta.quantity)
-                .cloned()
-                .expect("We know we already have the value")
+            asset_quantity(&utxo, &self.token_id)
         };
 
         self.finish_remove(value, pointer);
@@ -323,14 +327,22 @@ impl UTxOStoreMut {
                 );
 
             for asset in utxo_details.assets.iter() {
-                self.by_policy_id
+                let set = self
+                    .by_policy_id
                     .entry(asset.fingerprint.clone())
-                    .or_default()
-                    .add_value(
-                        &asset.fingerprint,
-                        asset.quantity.clone(),
-                        utxo_details.clone(),
-                    );
+                    .or_default();
+
+                // the same asset may be listed more than once in the UTxO, in this case the
+                // total quantity was added with the first occurrence
+                if set.contains_key(&utxo_details.pointer) {
+                    continue;
+                }
+
+                set.add_value(
+                    &asset.fingerprint,
+                    asset_quantity(&utxo_details, &asset.fingerprint),
+                    utxo_details.clone(),
+                );
 
                 // We want to populate the dictionary only if we don't
                 // already have the entry
-- 
2.43.0


From 6a9b4009b99f78b439f0497ede65b02a51570738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 02/34] fix: Value::truncate: large values printed in
 scientific notation lost their integral part

---
 core/src/value.rs | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..6bd913a 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -160,26 +160,7 @@ impl<Rep> Value<Rep> {
     /// ```
     ///
     pub fn truncate(&self) -> Self {
-        let value = &self.value;
-
-        let value = if value < &BigDecimal::one() {
-            BigDecimal::from(0u64)
-        } else {
-            let value = value.to_string();
-            let mut split = value.split('.');
-
-            if let Some(integer) = split.next() {
-                if let Ok(parsed) = integer.parse() {
-                    parsed
-                } else {
-                    BigDecimal::zero()
-                }
-            } else {
-                BigDecimal::zero()
-            }
-        };
-
-        Self::new(value)
+        Self::new(self.value.with_scale(0))
     }
 }
 
-- 
2.43.0


From 6667b8a8864544783eeffbb3485f8a17be7f2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 03/34] fix: Value<MicroAlgo>::to_algo returned an amount of
 Ether

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index 6bd913a..30d31fc 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -344,7 +344,7 @@ impl Value<algo::MicroAlgo> {
     }
 
     #[inline]
-    pub fn to_algo(&self) -> Value<evm::Ether> {
+    pub fn to_algo(&self) -> Value<algo::Algo> {
         Value {
             value: scale(&self.value, algo::ALGO_MICRO_SCALE_FACTOR),
             phantom_data: PhantomData,
-- 
2.43.0


From e27a9691ae47f2afa397b466d3a0bd279ade2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 04/34] fix: fraos: looking up a huge sequence number
 overflowed

---
 fraos/src/seqno.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..1c66205 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,11 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            // no index is that big
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From 32b5798d16e66fb2e22092752af95fdcaf45d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 05/34] fix: fraos: a failed append left its records
 half-accounted for

---
 fraos/src/growable_mmap.rs | 147 +++++++++++++++++++++----------------
 1 file changed, 85 insertions(+), 62 deletions(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 39bfcb3..b2c0e1c 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -5,7 +5,6 @@ use memmap2::{MmapMut, MmapOptions};
 use std::cmp::max;
 
 use std::fs::File;
-use std::mem::swap;
 use std::sync::{RwLock, RwLockWriteGuard};
 
 const MAX_MMAPS_COUNT: usize = 2048;
@@ -112,89 +111,113 @@ impl GrowableMmap {
             }
         })?;
 
-        let start_write_from = match &mut storage_guard.active_map {
-            None => {
+        // nothing is accounted for before the data is written and flushed: a failure at any point
+        // leaves the storage as it was
+        let active_mmap_end = storage_guard
+            .active_map
+            .as_ref()
+            .map(|active_mmap| active_mmap.bounds.size())
+            .unwrap_or(0);
+
+        match &mut storage_guard.active_map {
+            // if we have enough space use active mmap
+            Some(active_mmap) if active_mmap_end + extension < active_mmap.len => {
+                Self::write_and_flush(&mut active_mmap.mmap, active_mmap_end, extension, f)?;
+
+                active_mmap
+                    .bounds
+                    .append_relative_end(active_mmap_end + extension)
+                    .map_err(FraosError::IndexError)?;
+            }
+            active_map => {
                 let new_mmap_size = self.get_new_mmap_size(extension);
-                // inactive size
-                let already_mapped = storage_guard.inactive_mmaps.index.len();
+                // offset is inactive part + current active part
+                let already_mapped = match active_map {
+                    None => storage_guard.inactive_mmaps.index.len(),
+                    Some(active_mmap) => active_mmap.bounds.global_chunk_end(),
+                };
 
                 // create mmap and flush
-                let new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+                let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
 
                 // create index on active mmap
-                let mut single_mmap_index = MmapChunkAddressMapper::new(already_mapped);
-                single_mmap_index
+                let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
+                new_bounds
                     .append_relative_end(extension)
                     .map_err(FraosError::IndexError)?;
 
-                storage_guard.active_map = Some(ActiveMmap {
+                // for a file the replaced active mmap is mapped again for reading only, so that
+                // it is still there if that fails
+                let read_only_mmap = match (&self.file, &storage_guard.active_map) {
+                    (Some(file), Some(active_mmap)) => Some(
+                        unsafe {
+                            MmapOptions::new()
+                                .offset(active_mmap.bounds.global_chunk_start() as u64)
+                                .len(active_mmap_end)
+                                .map(file)
+                        }
+                        .map_err(|err| FraosError::MmapError(MmapError::Mmap(err)))?,
+                    ),
+                    _ => None,
+                };
+
+                Self::write_and_flush(&mut new_mmap, 0, extension, f)?;
+
+                // replace active mmap with new mmap
+                let old_mmap = storage_guard.active_map.replace(ActiveMmap {
                     len: new_mmap_size,
                     mmap: new_mmap,
-                    bounds: single_mmap_index,
+                    bounds: new_bounds,
                 });
 
-                0usize
-            }
-            Some(active_mmap) => {
-                let current_mmap_end = active_mmap.bounds.size();
-
-                // if we have enough space use active mmap
-                if current_mmap_end + extension < active_mmap.len {
-                    active_mmap
-                        .bounds
-                        .append_relative_end(current_mmap_end + extension)
-                        .map_err(FraosError::IndexError)?;
-                    current_mmap_end
-                } else {
-                    let new_mmap_size = self.get_new_mmap_size(extension);
-                    // offset is inactive part + current active part
-                    let already_mapped = active_mmap.bounds.global_chunk_end();
-
-                    let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
-
-                    // replace active mmap with new mmap
-                    swap(&mut new_mmap, &mut active_mmap.mmap);
-                    active_mmap.len = new_mmap_size;
-
-                    let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
-                    new_bounds
-                        .append_relative_end(extension)
-                        .map_err(FraosError::IndexError)?;
-                    swap(&mut new_bounds, &mut active_mmap.bounds);
-
-                    // add old replaced active mmap to inactive mmaps
+                // add old replaced active mmap to inactive mmaps
+                if let Some(old_mmap) = old_mmap {
+                    let read_only_mmap = match read_only_mmap {
+                        None => old_mmap
+                            .mmap
+                            .make_read_only()
+                            .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?,
+                        Some(read_only_mmap) => read_only_mmap,
+                    };
                     storage_guard
                         .inactive_mmaps
                         .index
-                        .append(new_bounds)
+                        .append(old_mmap.bounds)
                         .map_err(FraosError::IndexError)?;
-                    storage_guard.inactive_mmaps.maps.push(
-                        SharedMmap::new(
-                            new_mmap
-                                .make_read_only()
-                                .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?,
-                        )
-                        .slice(..current_mmap_end),
-                    );
-
-                    0usize
+                    storage_guard
+                        .inactive_mmaps
+                        .maps
+                        .push(SharedMmap::new(read_only_mmap).slice(..active_mmap_end));
                 }
             }
-        };
+        }
 
-        match storage_guard.active_map.as_mut() {
-            None => return Err(FraosError::DataFileDamaged),
-            Some(active_mmap) => {
-                f(&mut active_mmap.mmap.as_mut()[start_write_from..])?;
+        // the mmaps stay as they are if this fails, it is tried again with the next append
+        let _ = self.rearrange_mmaps(storage_guard);
 
-                active_mmap
-                    .mmap
-                    .flush()
-                    .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))?;
-            }
+        Ok(())
+    }
+
+    fn write_and_flush<F>(
+        mmap: &mut MmapMut,
+        start: usize,
+        extension: usize,
+        f: F,
+    ) -> Result<(), FraosError>
+    where
+        F: Fn(&mut [u8]) -> Result<(), FraosError>,
+    {
+        let result = f(&mut mmap[start..]).and_then(|()| {
+            mmap.flush()
+                .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))
+        });
+
+        if result.is_err() {
+            // what was written must not be taken for data when the file is opened again
+            mmap[start..start + extension].fill(0);
         }
 
-        self.rearrange_mmaps(storage_guard)
+        result
     }
 
     pub fn get_ref_and_apply<F, U>(&self, address: usize, f: F) -> Result<Option<U>, FraosError>
-- 
2.43.0


From 1fd68fa512238c81628bb04025ee5f99f8321357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 06/34] fix: fraos: opening a missing path read-only created it

---
 fraos/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..2ad1053 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -27,6 +27,10 @@ impl Database {
         let path = path.as_ref();
 
         if !path.exists() {
+            if !writable {
+                return Err(FraosError::FileError(FileError::PathNotFound));
+            }
+
             std::fs::create_dir(path).map_err(|err| {
                 FraosError::FileError(FileError::FileOpen(path.to_path_buf(), err))
             })?;
-- 
2.43.0


From 988de46e73e8bb9f4193ac1457329816846fd849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 07/34] fix: fraos: dropping one clone of a database truncated
 the files under the others

---
 fraos/src/database.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 2ad1053..937ad50 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -11,6 +11,14 @@ pub struct Database {
     flatfile: Arc<FlatFile>,
     seqno_index: Arc<SeqNoIndex>,
     write_lock: Arc<Mutex<()>>,
+    _shrink_on_drop: Arc<ShrinkOnDrop>,
+}
+
+/// Releases the space reserved in the files for further appends. This has to wait for the last
+/// clone of the database: the others still have this space mapped.
+struct ShrinkOnDrop {
+    flatfile: Arc<FlatFile>,
+    seqno_index: Arc<SeqNoIndex>,
 }
 
 impl Database {
@@ -67,10 +75,16 @@ impl Database {
 
         let write_lock = Arc::new(Mutex::new(()));
 
+        let shrink_on_drop = Arc::new(ShrinkOnDrop {
+            flatfile: flatfile.clone(),
+            seqno_index: seqno_index.clone(),
+        });
+
         Ok(Database {
             flatfile,
             seqno_index,
             write_lock,
+            _shrink_on_drop: shrink_on_drop,
         })
     }
 
@@ -165,7 +179,7 @@ impl Database {
     }
 }
 
-impl Drop for Database {
+impl Drop for ShrinkOnDrop {
     fn drop(&mut self) {
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
-- 
2.43.0


From 532c8b993ad543b5fed27d2c6f6382b803ce1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 08/34] fix: fraos: a record was visible to readers before the
 append that wrote it counted

---
 fraos/src/appender.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fraos/src/appender.rs b/fraos/src/appender.rs
index 85cd50e..1b67c84 100644
--- a/fraos/src/appender.rs
+++ b/fraos/src/appender.rs
@@ -86,6 +86,11 @@ impl Appender {
     where
         F: Fn(&[u8]) -> Result<Option<U>, FraosError>,
     {
+        // an append that is still in progress is not visible yet
+        if offset >= self.actual_size.load(Ordering::SeqCst) {
+            return Ok(None);
+        }
+
         let mmap =
             unsafe { self.mmap.get().as_ref() }.ok_or(FraosError::MmapError(MmapError::Access))?;
         mmap.get_ref_and_apply(offset, f)
-- 
2.43.0


From f86d0706d7c051d06a5d2803fd880e7a6d0a04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 09/34] fix: indexed-log-map: concurrent appends of one key
 could index the older entry

---
 indexed-log-map/src/storage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..ccf514b 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -3,6 +3,7 @@ use anyhow::{anyhow, bail, Context, Result};
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::marker::PhantomData;
+use std::sync::Mutex;
 
 /// Indexed log map inherits the properties of fraos::Database (thread safety) and allows
 /// access by key
@@ -10,6 +11,8 @@ pub struct IndexedLogMap<Key: Serialize + DeserializeOwned, Value: Serialize + D
     storage: fraos::Database,
     // this is an option since we might want to take a look at
     key_to_seqno: Option<sled::Db>,
+    // the log and the key index have to be updated in the same order
+    write_lock: Mutex<()>,
     phantom_data: PhantomData<(Key, Value)>,
 }
 
@@ -55,6 +58,7 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         Ok(Self {
             storage,
             key_to_seqno,
+            write_lock: Mutex::new(()),
             phantom_data: Default::default(),
         })
     }
@@ -70,6 +74,10 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         ciborium::ser::into_writer(&value, &mut serialized_value)
             .context("Failed to encode cbor data")?;
         let records = vec![serialized_value.as_slice()];
+        let _write_guard = self
+            .write_lock
+            .lock()
+            .map_err(|err| anyhow!("can't lock the storage for writing: {}", err))?;
         let index = self
             .storage
             .append_get_seqno(records.as_slice())
-- 
2.43.0


From 2134fa825def5915f4cef17aa99a975793da2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 10/34] fix: indexed-log-map: a crash lost the keys of
 acknowledged entries

---
 indexed-log-map/src/storage.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index ccf514b..623e1af 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -85,15 +85,16 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         match index {
             None => Err(anyhow!("Value is not inserted")),
             Some(position) => {
-                self.key_to_seqno
-                    .as_ref()
-                    .unwrap()
+                let key_to_seqno = self.key_to_seqno.as_ref().unwrap();
+                key_to_seqno
                     .insert(
                         serialized_key.as_slice(),
                         deps::serde_json::to_vec(&position)
                             .context("we should always be able to encode")?,
                     )
                     .context("can't insert key mapping into index")?;
+                // the record is already on the drive, and it can't be found without the mapping
+                key_to_seqno.flush().context("can't flush the index")?;
                 Ok(())
             }
         }
-- 
2.43.0


From 4f728aeacfc23cf6ebe5d1b19ce3034459ef9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 11/34] fix: multiverse: iterating skipped the siblings of an
 entry

---
 multiverse/src/visitor/depth_ordered.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..3c2d09d 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,8 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From 5a16dd1aa6d49a83ce5e04fa9e91a010849b768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 12/34] fix: multiverse: inserting a present key replaced its
 stored value

---
 multiverse/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..6fd82a2 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -335,12 +335,12 @@ where
         )
     )]
     pub fn insert(&mut self, variant: V) -> Result<(), MultiverseError> {
+        if self.contains(variant.id()) {
+            return Ok(());
+        }
+
         if !self.db_insert(variant.block_number(), variant.id(), &variant)? {
-            if self.all.contains_key(&EntryRef::new(variant.id().clone())) {
-                return Ok(());
-            } else {
-                tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
-            }
+            tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
         }
 
         self.insert_in_memory(variant)
-- 
2.43.0


From 124b4fcebf39c215d34138674f86fbfb8a118cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 13/34] fix: multiverse: a failed removal left the entry in the
 storage only

---
 multiverse/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 6fd82a2..51f7bd6 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -407,6 +407,14 @@ where
     }
 
     pub fn remove(&mut self, key: &EntryRef<K>) -> Result<V, MultiverseError> {
+        // remove from the storage first: if this fails nothing has changed and
+        // the removal can be attempted again
+        let counter = match self.all.get(key) {
+            Some(entry) => entry.value.block_number(),
+            None => return Err(MultiverseError::NotFound),
+        };
+        self.db_remove(counter, key.borrow())?;
+
         let entry = if let Some(entry) = self.all.remove(key) {
             entry
         } else {
@@ -446,8 +454,6 @@ where
             }
         }
 
-        let counter = entry.value.block_number();
-
         if let btree_map::Entry::Occupied(mut occupied) = self.ordered.entry(counter) {
             occupied.get_mut().remove(key);
             if occupied.get().is_empty() {
@@ -456,7 +462,6 @@ where
         };
 
         let _removed = self.tips.remove(key);
-        self.db_remove(counter, key.borrow())?;
 
         Ok(entry.value)
     }
-- 
2.43.0


From f7140f215b7afbaff297b7d77ae4b721e358f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 14/34] fix: multiverse: parent links and tips went stale when
 a parent was removed or inserted late

---
 multiverse/src/lib.rs | 51 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 51f7bd6..8a8b469 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -388,16 +388,37 @@ where
             EntryWeakRef::new()
         };
 
+        // the entries that were waiting for that parent are not roots anymore
+        let children: HashSet<_> = self
+            .roots
+            .iter()
+            .filter(|root| **root != entry_ref)
+            .filter(|root| {
+                self.all
+                    .get(*root)
+                    .is_some_and(|entry| entry.value.parent_id() == variant.id())
+            })
+            .cloned()
+            .collect();
+        for child in children.iter() {
+            self.roots.remove(child);
+            if let Some(child) = self.all.get_mut(child) {
+                child.parent = entry_ref.weak();
+            }
+        }
+
         self.ordered
             .entry(variant.block_number())
             .or_default()
             .insert(entry_ref.clone());
-        let entry = Entry::new(parent, variant);
+        let is_tip = children.is_empty();
+        let mut entry = Entry::new(parent, variant);
+        entry.children = children;
         self.all.insert(entry_ref.clone(), entry);
 
         // by default all new insertion are a tip. This is because it is the first
-        // time we are meeting it.
-        if !self.tips.insert(entry_ref) {
+        // time we are meeting it. Unless its children were there already.
+        if is_tip && !self.tips.insert(entry_ref) {
             tracing::warn!(
                 "we expected to insert the new entry in the multiverse. This should not happen because of the db_insert check we did earlier."
             )
@@ -421,17 +442,21 @@ where
             return Err(MultiverseError::NotFound);
         };
 
-        if self.roots.remove(key) {
-            // Removing the entry makes all the children "orphaned". So they
-            // need to become root themselves. Iterate through all the children
-            // and add them in the root set
-            for child in entry.children {
-                assert!(
-                    self.roots.insert(child.clone()),
-                    "Somehow a child ({child:?}) was already in the set of root entries. \
-                This should not happen in normal circumstances.",
-                );
+        self.roots.remove(key);
+
+        // Removing the entry makes all the children "orphaned". So they
+        // need to become root themselves. Iterate through all the children
+        // and add them in the root set
+        for child in entry.children {
+            if let Some(child) = self.all.get_mut(&child) {
+                child.parent = EntryWeakRef::new();
             }
+
+            assert!(
+                self.roots.insert(child.clone()),
+                "Somehow a child ({child:?}) was already in the set of root entries. \
+                This should not happen in normal circumstances.",
+            );
         }
 
         // if the entry had a parent, it then may become a tip (if that
-- 
2.43.0


From e22d27a2ffa4745147424ff280296a016baf2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 15/34] fix: blockchain-source: fork handling panicked on the
 first block when pulled from no position

---
 blockchain-source/src/multiverse/rollback.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..75d864f 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -211,8 +211,13 @@ where
         } else {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
-            self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            match from {
+                Some(from) => {
+                    self.events.push(Event::InnerEvent(block));
+                    Event::Rollback(from.clone())
+                }
+                None => Event::InnerEvent(block),
+            }
         };
 
         Ok(Some(new_event))
-- 
2.43.0


From 4c5d07af05d89fe9b11eb9ab17fff49cc822b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 16/34] fix: blockchain-source: fork handling lost the events
 its consumer had not seen when restarted

---
 blockchain-source/src/multiverse/rollback.rs | 38 ++++++++++++++------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 75d864f..8835993 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -24,6 +24,8 @@ pub struct ForkHandlingSource<K, V, InnerSource, Event> {
     confirmation_depth: usize,
     confirmed: Option<K>,
     last: Option<K>,
+    // whether `last` is known to be where the consumer stands, which it tells with its first pull
+    started: bool,
     events: Vec<Event>,
 }
 
@@ -50,14 +52,13 @@ impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> {
             })
         };
 
-        let last = multiverse.iter().last().map(|entry| entry.id().clone());
-
         Self {
             multiverse,
             confirmation_depth,
             source: inner_source,
             confirmed: selected.map(|k| k.inner().clone()),
-            last,
+            last: None,
+            started: false,
             events: Default::default(),
         }
     }
@@ -97,6 +98,18 @@ where
             return Ok(Some(event));
         }
 
+        if !self.started {
+            // events may have been lost when this was last stopped, so the consumer may not have
+            // seen all of the blocks in the multiverse.
+            self.last = from.as_ref().and_then(|from| {
+                self.multiverse
+                    .iter()
+                    .find(|entry| entry.next_from().as_ref() == Some(from))
+                    .map(|entry| entry.id().clone())
+            });
+            self.started = true;
+        }
+
         let inner_from = {
             let mut checkpoints = HashSet::new();
 
@@ -209,14 +222,19 @@ where
                 .pop()
                 .expect("no common ancestor between branches")
         } else {
-            // if the db is empty, send a rollback event to the `from` argument, just to be
-            // safe
+            // if the db doesn't have the consumer's position (usually because it was empty), send a
+            // rollback event to the `from` argument, just to be safe, and all the blocks that
+            // come after it.
+            let mut current_branch_cursor = block_id;
+
+            while let Some(entry) = self.multiverse.get(&current_branch_cursor) {
+                self.events.push(Event::InnerEvent(entry.clone()));
+                current_branch_cursor = entry.parent_id().clone();
+            }
+
             match from {
-                Some(from) => {
-                    self.events.push(Event::InnerEvent(block));
-                    Event::Rollback(from.clone())
-                }
-                None => Event::InnerEvent(block),
+                Some(from) => Event::Rollback(from.clone()),
+                None => self.events.pop().unwrap_or(Event::InnerEvent(block)),
             }
         };
 
-- 
2.43.0


From b5555b546c9e307f156e4eb4b590627357c1bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 17/34] fix: blockchain-source: epochs were computed as if
 every slot lasted one second

---
 blockchain-source/src/cardano/time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/cardano/time.rs b/blockchain-source/src/cardano/time.rs
index 68dc94f..56cc7ed 100644
--- a/blockchain-source/src/cardano/time.rs
+++ b/blockchain-source/src/cardano/time.rs
@@ -58,13 +58,17 @@ impl Era {
     pub fn absolute_slot_to_epoch(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
             .map(|slot_relative_to_era| {
-                self.start_epoch + slot_relative_to_era / self.epoch_length_seconds
+                self.start_epoch
+                    + slot_relative_to_era * self.slot_length / self.epoch_length_seconds
             })
     }
 
     pub fn absolute_slot_to_relative(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
-            .map(|slot_relative_to_era| slot_relative_to_era % self.epoch_length_seconds)
+            .map(|slot_relative_to_era| {
+                slot_relative_to_era * self.slot_length % self.epoch_length_seconds
+                    / self.slot_length
+            })
     }
 }
 
-- 
2.43.0


From 033d89e587c37db9545a30cd546b16ac4cb5bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 18/34] fix: blockchain-source: a fork before the first
 confirmation left nothing to resume from

---
 blockchain-source/src/multiverse/mod.rs      | 14 ++++++++++++--
 blockchain-source/src/multiverse/rollback.rs |  4 ++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 9d33e16..fe86886 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -117,8 +117,18 @@ where
                         // TODO: re-check this
                         checkpoints.push(from.clone());
                     }
-                } else if let Some(from) = from {
-                    checkpoints.push(from.clone());
+                } else {
+                    // nothing is confirmed yet, so after a fork any of the known blocks may be the
+                    // last one that is still on the chain of the wrapped source.
+                    for point in self.multiverse.iter().filter_map(V::next_from) {
+                        if !checkpoints.contains(&point) {
+                            checkpoints.push(point);
+                        }
+                    }
+
+                    if let Some(from) = from {
+                        checkpoints.push(from.clone());
+                    }
                 }
 
                 checkpoints
diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 8835993..681804d 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -129,6 +129,10 @@ where
                 let confirmed = self.multiverse.get(confirmed).unwrap();
 
                 checkpoints.insert(confirmed.next_from().unwrap());
+            } else {
+                // nothing is confirmed yet, so after a fork any of the known blocks may be the last
+                // one that is still on the chain of the wrapped source.
+                checkpoints.extend(self.multiverse.iter().filter_map(V::next_from));
             }
 
             if let Some(from) = from {
-- 
2.43.0


From 35fe7bcd7bb66747a8535a73134cb219f77f1adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:22 +0000
Subject: [PATCH 19/34] fix: utxo-selection: random-improve kept the old set of
 selectable inputs when given new ones

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From dc9b788220759718b2a3a314c56832c0f8647db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 20/34] fix: utxo-selection: random-improve looked tokens up by
 a name that is not their fingerprint

---
 .../src/algorithms/random_improve.rs          | 53 +++++++++----------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..c785167 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -3,10 +3,9 @@ use crate::common::{InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
+use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore, Value};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
@@ -71,20 +70,19 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut chosen_indices = HashSet::<usize>::new();
 
         let mut rng = rand::thread_rng();
-        let mut policy_ids_to_asset_names = asset_output_balance
+        let mut output_assets = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
-
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+            .map(|asset: &TransactionAsset| {
+                (
+                    asset.policy_id.clone(),
+                    asset.asset_name.clone(),
+                    asset.fingerprint.clone(),
+                )
+            })
+            .collect::<Vec<(PolicyId, AssetName, TokenId)>>();
+        output_assets.sort();
+
+        for (_policy_id, _asset_name, token) in output_assets.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut self.available_indices,
@@ -93,20 +91,8 @@ impl InputSelectionAlgorithm for RandomImprove {
                 &mut asset_input_balance,
                 &mut input_balance,
                 &mut fee,
-                |value: &UTxODetails| {
-                    value
-                        .assets
-                        .iter()
-                        .find(|asset| asset.fingerprint == token)
-                        .map(|asset| asset.quantity.clone())
-                },
-                |value: &UTxOBuilder| {
-                    value
-                        .assets
-                        .iter()
-                        .find(|asset| asset.fingerprint == token)
-                        .map(|asset| asset.quantity.clone())
-                },
+                |value: &UTxODetails| quantity_of(&value.assets, token),
+                |value: &UTxOBuilder| quantity_of(&value.assets, token),
                 &mut rng,
             )?;
 
@@ -184,6 +170,15 @@ impl InputSelectionAlgorithm for RandomImprove {
     }
 }
 
+/// total quantity of the token in the list of assets, if it is listed
+fn quantity_of(assets: &[TransactionAsset], token: &TokenId) -> Option<Value<Regulated>> {
+    assets
+        .iter()
+        .filter(|asset| &asset.fingerprint == token)
+        .map(|asset| asset.quantity.clone())
+        .reduce(|total, quantity| total + quantity)
+}
+
 #[allow(clippy::too_many_arguments)]
 fn select_input_and_update_balances<
     Estimate: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>,
-- 
2.43.0


From 4056362ee3d49bc96f38cee1f2d4459d1d84458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 21/34] fix: utxo-selection: random-improve counted the inputs
 of equal outputs twice and refused empty ones

---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index c785167..aea609d 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -6,7 +6,7 @@ use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore, Value};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -209,14 +209,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // per output, as two of them can be the same
+    let mut associated_indices: Vec<Vec<usize>> = vec![Vec::new(); outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -245,19 +246,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -287,12 +282,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 2d272e2a21d9b94488482c911fa672c5817d4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 22/34] fix: utxo-selection: random-improve's improvements
 could leave a token uncovered

---
 .../src/algorithms/random_improve.rs          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index aea609d..f99b3b1 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -253,26 +253,34 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let amount = |value: Option<Value<Regulated>>| {
+                value
+                    .and_then(|value| value.raw().to_i128())
+                    .ok_or_else(|| anyhow!("Amount of the improved asset not found"))
+            };
+            let min = amount(by_output(output))?;
+            let mut covered = 0;
+            for i in associated.iter() {
+                covered += amount(by_input(&available_inputs[*i]))?;
+            }
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
                     .get_mut(random_index)
                     .ok_or_else(|| anyhow!("Relevant index by random index not found"))?;
+                let cur = amount(by_input(&available_inputs[*i]))?;
+                let new = amount(by_input(&available_inputs[*j]))?;
                 let should_improve = {
-                    let input = &available_inputs[*i];
-                    let new_input = &available_inputs[*j];
-                    let cur = input.value.raw().to_u64().unwrap();
-                    let new = new_input.value.raw().to_u64().unwrap();
-                    let min = output.value.raw().to_u64().unwrap();
                     let ideal = 2 * min;
                     let max = 3 * min;
-                    let move_closer =
-                        (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
+                    let move_closer = (ideal - new).abs() < (ideal - cur).abs();
                     let not_exceed_max = new < max;
+                    let still_covered = covered - cur + new >= min;
 
-                    move_closer && not_exceed_max
+                    move_closer && not_exceed_max && still_covered
                 };
                 if should_improve {
+                    covered += new - cur;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From d4d0abab56f1059cfd033d0810f1382b63d2861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 23/34] fix: utxo-selection: random-improve left the fees
 uncovered

---
 utxo-selection/src/algorithms/random_improve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index f99b3b1..b604ec5 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -1,5 +1,5 @@
 use crate::algorithm::InputSelectionAlgorithm;
-use crate::common::{InputOutputSetup, InputSelectionResult};
+use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
@@ -117,7 +117,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From bbe8b20688333a0d877fae96085aaed9b55d8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 24/34] fix: utxo-selection: a failed random-improve selection
 used up inputs

---
 utxo-selection/src/algorithms/random_improve.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index b604ec5..92038db 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -68,6 +68,8 @@ impl InputSelectionAlgorithm for RandomImprove {
         let explicit_outputs = input_output_setup.fixed_outputs.clone();
 
         let mut chosen_indices = HashSet::<usize>::new();
+        // a copy, so that nothing is taken by a selection that fails
+        let mut available_indices = self.available_indices.clone();
 
         let mut rng = rand::thread_rng();
         let mut output_assets = asset_output_balance
@@ -85,7 +87,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         for (_policy_id, _asset_name, token) in output_assets.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -102,7 +104,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -118,15 +120,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -145,6 +146,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From 1749dc08f74bbae0564645029bd51967c18a6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 25/34] fix: utxo-selection: the change could be negative

---
 .../src/algorithms/balance_change_single_output.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..63eb78c 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,12 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected to pay for the change output, can't balance change: {}",
+                fee_for_change - &change.value
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From 6bb1d8fb7a4d89671bf8d1fdf5620a99c77f190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 26/34] fix: utxo-selection: the thermostat panicked on a given
 asset that is not in the available utxos

---
 utxo-selection/src/algorithms/thermostat.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..2234463 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -4,7 +4,9 @@ use crate::{
 };
 use anyhow::{anyhow, Context};
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{Address, Balance, Regulated, TokenId, UTxOStore, Value};
+use dcspark_core::{
+    Address, AssetName, Balance, PolicyId, Regulated, TokenId, UTxOStore, Value,
+};
 use deps::bigdecimal::ToPrimitive;
 use serde::Deserialize;
 use std::collections::hash_map::Entry;
@@ -43,6 +45,8 @@ pub struct Thermostat {
 
     balance: Balance<Regulated>,
     asset_balance: HashMap<TokenId, Balance<Regulated>>,
+    // policy id and name of the assets of the given inputs, as they may not be in the available utxos
+    given_asset_ids: HashMap<TokenId, (PolicyId, AssetName)>,
     config: ThermostatAlgoConfig,
     available_utxos: UTxOStore,
 }
@@ -61,6 +65,7 @@ impl Thermostat {
             selected_inputs_value: Value::zero(),
             balance: Balance::Balanced,
             asset_balance: HashMap::new(),
+            given_asset_ids: HashMap::new(),
             config,
             available_utxos: Default::default(),
         }
@@ -307,6 +312,7 @@ impl Thermostat {
                 } else {
                     let (policy_id, asset_name) = utxos
                         .get_asset_ids(&asset)
+                        .or_else(|| self.given_asset_ids.get(&asset))
                         .cloned()
                         .expect("Always expect to retrieve the policy_id/asset_name");
 
@@ -569,6 +575,7 @@ impl Thermostat {
         self.selected_inputs_value = Value::zero();
         self.balance = Balance::Balanced;
         self.asset_balance = HashMap::new();
+        self.given_asset_ids = HashMap::new();
     }
 }
 
@@ -603,6 +610,10 @@ impl InputSelectionAlgorithm for Thermostat {
                 .asset_balance
                 .entry(token.clone())
                 .or_insert_with(Balance::zero) += asset.quantity.clone();
+            self.given_asset_ids.insert(
+                token.clone(),
+                (asset.policy_id.clone(), asset.asset_name.clone()),
+            );
         }
         for (token, asset) in input_output_setup.output_asset_balance.iter() {
             *self
-- 
2.43.0


From 1b90e89e191cbbf5a895342427b2c20480f1b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 27/34] fix: utxo-selection: the thermostat lost half of a
 token when its change was too small to split

---
 utxo-selection/src/algorithms/thermostat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 2234463..5bd3380 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -426,7 +426,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -436,6 +436,8 @@ impl Thermostat {
                             continue;
                         }
 
+                        asset.quantity -= quantity;
+
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-- 
2.43.0


From a528bceb08b8d66c5bf21ec2cb12e9395e81631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 28/34] fix: utxo-selection: the thermostat's changes could
 leave less than the fee

---
 utxo-selection/src/algorithms/thermostat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 5bd3380..53554b3 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -563,6 +563,9 @@ impl Thermostat {
             self.balance_excess_of_asset(&utxos, asset, estimator)?;
         }
 
+        // the changes may have taken what was there for the fees, their own included
+        utxos = self.select_input_for_main_until_balanced(utxos, estimator)?;
+
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
         self.available_utxos = utxos;
-- 
2.43.0


From 8246d092832e31dba1acbf76d48b1a2ef3c92030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 29/34] fix: utxo-selection: the thermostat divided by zero
 when inputs cost nothing

---
 utxo-selection/src/algorithms/thermostat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 53554b3..7a459be 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -104,7 +104,8 @@ impl Thermostat {
         Ok(estimate
             .max_size()?
             .saturating_sub(estimate.current_size()?.saturating_add(reserved_room))
-            / size_of_one_input)
+            .checked_div(size_of_one_input)
+            .unwrap_or(usize::MAX))
     }
 
     fn add_input(&mut self, input: UTxODetails) {
-- 
2.43.0


From 4025c419af0acf7d4e05aa1f8cb1b57fad24a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 30/34] fix: take the name of an asset, not its CBOR encoding,
 when converting from CML

---
 cardano-utils/src/utxo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 62347c5..3b0d191 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -191,7 +191,7 @@ fn csl_value_to_tokens(
     let mut tokens = HashMap::<TokenId, TransactionAsset>::new();
     multiasset_iter(value, |policy_id, asset_name, quantity| {
         let policy_id = PolicyId::new(hex::encode(policy_id.to_bytes()));
-        let asset_name = AssetName::new(hex::encode(asset_name.to_bytes()));
+        let asset_name = AssetName::new(hex::encode(asset_name.name()));
         let fingerprint = fingerprint(&policy_id, &asset_name)
             .map_err(|err| anyhow!("Can't create fingerprint {err}"))?;
         let quantity = quantity.ok_or_else(|| anyhow!("not found asset quantity"))?;
-- 
2.43.0


From 5f5e5c67210054ae53569319bd7b1a182a422bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 31/34] fix: add up an asset's quantities when it is listed
 several times

---
 cardano-utils/src/utxo.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 3b0d191..f556937 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -32,10 +32,7 @@ pub fn utxo_details_to_cml_input(
         cardano_multiplatform_lib::address::Address::from_bech32(details.address.as_ref())
             .map_err(|err| anyhow!("can't convert input during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    details.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = assets_by_token(&details.assets);
 
     let value = tokens_to_csl_value(&details.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
@@ -103,6 +100,19 @@ pub fn utxo_details_from_io(
     })
 }
 
+/// the assets by token: the quantities of an asset that is listed several times
+/// add up
+fn assets_by_token(assets: &[TransactionAsset]) -> HashMap<TokenId, TransactionAsset> {
+    let mut by_token = HashMap::<TokenId, TransactionAsset>::new();
+    for asset in assets.iter() {
+        by_token
+            .entry(asset.fingerprint.clone())
+            .and_modify(|total| total.quantity += &asset.quantity)
+            .or_insert_with(|| asset.clone());
+    }
+    by_token
+}
+
 fn value_to_csl_coin(value: &Value<Regulated>) -> anyhow::Result<Coin> {
     Ok(Coin::from(value.to_u64().ok_or_else(|| {
         anyhow!("Can't convert input balance to u64")
@@ -213,10 +223,7 @@ pub fn utxo_builder_to_cml_output(builder: &UTxOBuilder) -> anyhow::Result<Trans
         cardano_multiplatform_lib::address::Address::from_bech32(builder.address.as_ref())
             .map_err(|err| anyhow!("can't convert output during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    builder.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = assets_by_token(&builder.assets);
 
     let value = tokens_to_csl_value(&builder.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
-- 
2.43.0


From 708798775e1935c9b77f484218851fac036daf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 32/34] fix: add the size of the protocol magic to a
 transaction's, instead of replacing it

---
 utxo-selection/src/estimators/thermostat_estimator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/estimators/thermostat_estimator.rs b/utxo-selection/src/estimators/thermostat_estimator.rs
index e1cf5c5..9bc84db 100644
--- a/utxo-selection/src/estimators/thermostat_estimator.rs
+++ b/utxo-selection/src/estimators/thermostat_estimator.rs
@@ -91,7 +91,7 @@ impl ThermostatFeeEstimator {
 
     #[allow(unused)]
     pub fn add_protocol_magic(&mut self, protocol_magic: impl AsRef<str>) {
-        self.current_size = protocol_magic.as_ref().len() + 5;
+        self.current_size += protocol_magic.as_ref().len() + 5;
         self.cost_metadata = {
             let v = self
                 .network_info
-- 
2.43.0


From 742ec48cbad6c10b181495b31dfc31d66c23179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 33/34] fix: account for the asset of a change output when
 estimating its costs

---
 utxo-selection/src/algorithms/thermostat.rs | 45 +++++++++++----------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 7a459be..edb3efd 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -267,16 +267,34 @@ impl Thermostat {
                 // setting the entry in a scope so it does not prevent us from
                 // manipulating `self` later
                 let entry = self.changes.entry(asset.clone());
-                let entry: &mut UTxOBuilder = match entry {
+                match entry {
                     Entry::Occupied(entry) => {
                         let mut_entry = entry.into_mut();
                         mut_entry.value += &wmain_excess;
                         self.balance -= &wmain_excess;
-                        mut_entry
+                        if let Some(asset) = mut_entry.assets.get_mut(0) {
+                            asset.quantity += &excess;
+                        }
                     }
                     Entry::Vacant(entry) => {
-                        let mut change =
-                            UTxOBuilder::new(address.clone(), wmain_excess.clone(), vec![]);
+                        let (policy_id, asset_name) = utxos
+                            .get_asset_ids(&asset)
+                            .or_else(|| self.given_asset_ids.get(&asset))
+                            .cloned()
+                            .expect("Always expect to retrieve the policy_id/asset_name");
+
+                        // the asset takes room in the output, so it needs to be there
+                        // already when we ask for the costs of the output
+                        let mut change = UTxOBuilder::new(
+                            address.clone(),
+                            wmain_excess.clone(),
+                            vec![TransactionAsset {
+                                policy_id,
+                                asset_name,
+                                fingerprint: asset.clone(),
+                                quantity: excess.clone(),
+                            }],
+                        );
 
                         let min_ada_required = estimate.min_value_for_output(change.clone())?;
 
@@ -301,29 +319,12 @@ impl Thermostat {
                                 change
                             )
                         })?;
-                        entry.insert(change)
+                        entry.insert(change);
                     }
                 };
 
                 let balance = self.asset_balance.entry(asset.clone()).or_default();
                 *balance -= &excess;
-
-                if let Some(asset) = entry.assets.get_mut(0) {
-                    asset.quantity += excess;
-                } else {
-                    let (policy_id, asset_name) = utxos
-                        .get_asset_ids(&asset)
-                        .or_else(|| self.given_asset_ids.get(&asset))
-                        .cloned()
-                        .expect("Always expect to retrieve the policy_id/asset_name");
-
-                    entry.assets.push(TransactionAsset {
-                        policy_id,
-                        asset_name,
-                        fingerprint: asset.clone(),
-                        quantity: excess,
-                    });
-                }
             }
 
             let entry = self
-- 
2.43.0


From 2d56b12118056733f9b87a0c01904fd15270f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 34/34] fix: random-improve compared only the whole parts of
 amounts, so an improvement could leave a fraction of a token uncovered

---
 utxo-selection/src/algorithms/random_improve.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 92038db..28bc5e0 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -4,7 +4,7 @@ use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore, Value};
-use deps::bigdecimal::ToPrimitive;
+use deps::bigdecimal::{BigDecimal, Zero};
 use rand::Rng;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
@@ -258,11 +258,11 @@ where
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             let amount = |value: Option<Value<Regulated>>| {
                 value
-                    .and_then(|value| value.raw().to_i128())
+                    .map(|value| value.raw().clone())
                     .ok_or_else(|| anyhow!("Amount of the improved asset not found"))
             };
             let min = amount(by_output(output))?;
-            let mut covered = 0;
+            let mut covered = BigDecimal::zero();
             for i in associated.iter() {
                 covered += amount(by_input(&available_inputs[*i]))?;
             }
@@ -274,11 +274,11 @@ where
                 let cur = amount(by_input(&available_inputs[*i]))?;
                 let new = amount(by_input(&available_inputs[*j]))?;
                 let should_improve = {
-                    let ideal = 2 * min;
-                    let max = 3 * min;
-                    let move_closer = (ideal - new).abs() < (ideal - cur).abs();
+                    let ideal = &min * BigDecimal::from(2);
+                    let max = &min * BigDecimal::from(3);
+                    let move_closer = (&ideal - &new).abs() < (&ideal - &cur).abs();
                     let not_exceed_max = new < max;
-                    let still_covered = covered - cur + new >= min;
+                    let still_covered = &covered - &cur + &new >= min;
 
                     move_closer && not_exceed_max && still_covered
                 };
-- 
2.43.0

