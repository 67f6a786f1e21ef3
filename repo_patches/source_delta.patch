From 07f4ae048dd5665129aa3509bd82b6cb3dea6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 01/22] fix: use the predicate id maps when rolling up
 predicate dictionaries upto a layer

---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..aa0e97b 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -195,7 +195,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
             layer
                 .immediate_layers_upto(memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From cbc9cd2b85f618911b12a6e2ed3447f456969ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 02/22] fix: cached layer store answered uncached predicate
 counts with the value count

---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..2cec0e7 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -197,7 +197,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From 9ae5051a1573d90858cb0faaf2b064409fcc4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 03/22] fix: directory layer store listed prefix directories
 instead of the layers in them

---
 src/storage/directory.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..f667868 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -32,18 +32,25 @@ impl DirectoryLayerStore {
 impl PersistentLayerStore for DirectoryLayerStore {
     type File = FileBackedStore;
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut stream = fs::read_dir(&self.path).await?;
+        let mut prefixes = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
-                let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+        while let Some(prefix) = prefixes.next_entry().await? {
+            // layers are kept in a subdirectory named after the first few characters of their name
+            if !prefix.file_type().await?.is_dir() || prefix.file_name().len() != PREFIX_DIR_SIZE {
+                continue;
+            }
+            let mut stream = fs::read_dir(prefix.path()).await?;
+            while let Some(direntry) = stream.next_entry().await? {
+                if direntry.file_type().await?.is_dir() {
+                    let os_name = direntry.file_name();
+                    let name = os_name.to_str().ok_or_else(|| {
+                        io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "unexpected non-utf8 directory name",
+                        )
+                    })?;
+                    result.push(string_to_name(name)?);
+                }
             }
         }
 
-- 
2.43.0


From 912f369b9838ec93830ee8aca05e925e0b75e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 04/22] fix: archive backend listed no layers because it did
 not look in the prefix directories

---
 src/storage/archive.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..1c6a5ae 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -223,19 +223,26 @@ impl ArchiveBackend for DirectoryArchiveBackend {
 #[async_trait]
 impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     async fn get_layer_names(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut stream = fs::read_dir(&self.path).await?;
+        let mut prefixes = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+        while let Some(prefix) = prefixes.next_entry().await? {
+            // layers are kept in a subdirectory named after the first few characters of their name
+            if !prefix.file_type().await?.is_dir() || prefix.file_name().len() != PREFIX_DIR_SIZE {
+                continue;
+            }
+            let mut stream = fs::read_dir(prefix.path()).await?;
+            while let Some(direntry) = stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                let name = os_name.to_str().ok_or_else(|| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "unexpected non-utf8 directory name",
+                    )
+                })?;
+                if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
+                    let name_component = &name[..name.len() - 6];
+                    result.push(string_to_name(name_component)?);
+                }
             }
         }
 
-- 
2.43.0


From 7eaeeff6146ab679588b1855b20457ff383460e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 05/22] fix: cached label store left the old layer name behind
 when a label was cleared

---
 src/storage/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index f667868..e03d76a 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -434,6 +434,7 @@ impl LabelStore for CachedDirectoryLabelStore {
                 let mut options = fs::OpenOptions::new();
                 options.create(false);
                 options.write(true);
+                options.truncate(true);
                 let mut file = options.open(p).await?;
                 file.write_all(&contents).await?;
                 file.flush().await?;
-- 
2.43.0


From 8684e88e5c29e9ba91fa541812d3161523b7dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 06/22] fix: looking up predicate id 0 returned triples of
 other predicates

---
 src/layer/internal/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index dfb342f..bd16039 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -372,6 +372,11 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
+        if predicate == 0 {
+            // 0 is not a predicate, it marks subjects without triples
+            return OptInternalLayerTriplePredicateIterator(None);
+        }
+
         match self.pos_predicate_wavelet_tree().lookup(predicate) {
             Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
                 InternalLayerTriplePredicateIterator::new(
@@ -389,6 +394,11 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
+        if predicate == 0 {
+            // 0 is not a predicate, it marks subjects without triples
+            return OptInternalLayerTriplePredicateIterator(None);
+        }
+
         match (
             self.neg_predicate_wavelet_tree()
                 .and_then(|t| t.lookup(predicate)),
-- 
2.43.0


From 36c920891d651e84cb842ad120cb22d8030faf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 07/22] fix: looking up the changes for an object without any
 returned those of the next object

---
 src/layer/internal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index bd16039..831bc18 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -426,7 +426,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_additions_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
@@ -447,7 +448,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_removals_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
-- 
2.43.0


From f081b3704dd06b3abe47e67183e9be3f67355eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 08/22] fix: seeking a predicate of a subject without triples
 skipped triples of the next subject

---
 src/layer/internal/subject_iterator.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/layer/internal/subject_iterator.rs b/src/layer/internal/subject_iterator.rs
index 09e41a1..f48d6d7 100644
--- a/src/layer/internal/subject_iterator.rs
+++ b/src/layer/internal/subject_iterator.rs
@@ -93,6 +93,16 @@ impl InternalLayerTripleSubjectIterator {
             self.s_p_position = self.s_p_adjacency_list.right_count() as u64;
             self.sp_o_position = self.sp_o_adjacency_list.right_count() as u64;
         } else {
+            if let Some(subjects) = self.subjects.as_ref() {
+                if subjects.entry(self.s_position as usize) != subject {
+                    // the subject is not in this layer. all triples of the next subject follow.
+                    self.s_p_position = self.s_p_adjacency_list.offset_for(self.s_position + 1);
+                    self.sp_o_position = self.sp_o_adjacency_list.offset_for(self.s_p_position + 1);
+
+                    return;
+                }
+            }
+
             let mut s_p_position = self.s_p_adjacency_list.offset_for(self.s_position + 1);
             while self.s_p_adjacency_list.num_at_pos(s_p_position) < predicate {
                 s_p_position += 1;
-- 
2.43.0


From b0c2971bcd0d75b59c349680b7431c9da366f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 09/22] fix: reported size of an archive rollup file did not
 match its contents

---
 src/storage/archive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 1c6a5ae..63aa982 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1111,7 +1111,8 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
             .await?
             .is_some()
         {
-            Ok(std::mem::size_of::<[u32; 5]>() + 2)
+            // a version line followed by the 40 character name of the rollup
+            Ok(42)
         } else {
             Err(io::Error::new(
                 io::ErrorKind::NotFound,
-- 
2.43.0


From b55aaf064a1dc3ec7f8504c47ade2475bddf5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 10/22] fix: layer_changes repeated the changes of the top
 layer instead of walking the ancestors

---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..788f507 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From ad85accad3c438e2d80701c2e13442ee956517c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 11/22] fix: rolling up upto a layer failed when the layer
 already had a full rollup

---
 src/storage/layer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 788f507..7eade18 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1770,7 +1770,9 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // a full rollup has no parent and is therefore not equivalent.
+            if self.layer_has_parent(rollup).await? && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1805,7 +1807,9 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // a full rollup has no parent and is therefore not equivalent.
+            if self.layer_has_parent(rollup).await? && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From c3e088d2f03be3020debe237493d55e4eb7e08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 12/22] fix: rolling up upto a layer panicked when the loaded
 layer was itself a rollup past it

---
 src/layer/internal/mod.rs              | 4 ----
 src/layer/internal/subject_iterator.rs | 5 +++++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index 831bc18..cfcfbd4 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -512,10 +512,6 @@ impl InternalLayer {
     }
 
     pub fn immediate_layers_upto(&self, upto_layer_id: [u32; 5]) -> Vec<&InternalLayer> {
-        if self.name() == upto_layer_id {
-            panic!("tried to retrieve layers up to a boundary, but boundary was the top layer");
-        }
-
         let mut layer = Some(self);
         let mut result = Vec::new();
 
diff --git a/src/layer/internal/subject_iterator.rs b/src/layer/internal/subject_iterator.rs
index f48d6d7..ef05ad3 100644
--- a/src/layer/internal/subject_iterator.rs
+++ b/src/layer/internal/subject_iterator.rs
@@ -340,6 +340,11 @@ impl InternalTripleStackIterator {
         layer: &InternalLayer,
         parent_id: [u32; 5],
     ) -> Result<Self, LayerStackError> {
+        if layer.name() == parent_id {
+            // the boundary is the top layer, so there is nothing in between
+            return Ok(Self::from_parts(Vec::new(), Vec::new()));
+        }
+
         let stack_size = layer.layer_stack_size();
         let mut positives = Vec::with_capacity(stack_size);
         let mut negatives = Vec::with_capacity(stack_size);
-- 
2.43.0


From b3369824531a4941462234e4fb7c2a5cece2758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 13/22] fix: imprecise rollup lost layers when it stopped at an
 existing rollup

---
 src/storage/delta.rs |  2 +-
 src/storage/layer.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa0e97b..c715c03 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,7 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+pub(crate) async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 7eade18..9f6fa09 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1815,10 +1815,18 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             }
         }
 
+        // a loaded ancestor may itself be a rollup reaching past upto.
+        // in that case, we roll up upto that ancestor.
+        let bound = safe_upto_bound(self, &layer, upto).await?;
+        if layer.name() == bound || layer.parent_name() == Some(bound) {
+            // nothing left to roll up
+            return Ok(layer.name());
+        }
+
         let (layer_dir, _parent_layer, child_layer_files) = self
-            .create_child_layer_files_with_cache(upto, cache)
+            .create_child_layer_files_with_cache(bound, cache)
             .await?;
-        imprecise_delta_rollup_upto(self, &layer, upto, child_layer_files).await?;
+        imprecise_delta_rollup_upto(self, &layer, bound, child_layer_files).await?;
         self.finalize(layer_dir).await?;
         Ok(layer_dir)
     }
-- 
2.43.0


From e58238607a25b25f66f52ee6de50f15762417a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 14/22] fix: string_to_name panicked on multi-byte characters
 and accepted signs

---
 src/storage/layer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 9f6fa09..056f21d 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1398,6 +1398,12 @@ pub fn string_to_name(string: &str) -> Result<[u32; 5], std::io::Error> {
             format!("string not len 40: {}", string),
         ));
     }
+    if !string.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("string is not a layer name: {}", string),
+        ));
+    }
     let n1 = u32::from_str_radix(&string[..8], 16)
         .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
     let n2 = u32::from_str_radix(&string[8..16], 16)
-- 
2.43.0


From 5ff04ed0fb9c760fd41568f9163e81b589ac3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 15/22] fix: importing a layer which is not in the pack created
 an empty layer

---
 src/storage/pack.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..04d7c82 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -68,8 +68,8 @@ impl<T: PersistentLayerStore> Packable for T {
         let mut layer_id_set = HashSet::new();
         for id in layer_ids {
             layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
         }
+        let mut imported = HashSet::new();
 
         let handle = tokio::runtime::Handle::current();
         tokio::task::block_in_place(|| {
@@ -103,6 +103,9 @@ impl<T: PersistentLayerStore> Packable for T {
                     // only able to match things that went through the
                     // conversion in the opposite direction.
                     let layer_id_arr = string_to_name(layer_id).unwrap();
+                    if imported.insert(layer_id_arr) {
+                        handle.block_on(self.create_named_directory(layer_id_arr))?;
+                    }
 
                     let header = entry.header();
                     if !header.entry_type().is_file() {
@@ -124,8 +127,7 @@ impl<T: PersistentLayerStore> Packable for T {
                 }
             }
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
+            for layer_id_arr in imported {
                 handle.block_on(self.finalize_layer(layer_id_arr))?;
             }
 
-- 
2.43.0


From 64cbfb9e7e7eeeb3e0bcadc795d67cb73288b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 16/22] fix: archive cache never evicted anything because its
 size was not tracked

---
 src/storage/archive.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 63aa982..3e5d88a 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -363,7 +363,6 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
@@ -391,7 +390,6 @@ impl<M, D> LruArchiveBackend<M, D> {
         Self {
             cache,
             limit,
-            current: 0,
             metadata_origin,
             data_origin,
         }
@@ -463,6 +461,16 @@ fn ensure_enough_cache_space(
     true
 }
 
+fn current_cache_size(cache: &LruCache<[u32; 5], CacheEntry>) -> usize {
+    cache
+        .iter()
+        .map(|(_, entry)| match entry {
+            CacheEntry::Resolved(bytes) => bytes.len(),
+            CacheEntry::Resolving(_) => 0,
+        })
+        .sum()
+}
+
 fn drop_from_cache(cache: &mut LruCache<[u32; 5], CacheEntry>, id: [u32; 5]) {
     assert!(cache.contains(&id));
     cache.demote(&id);
@@ -503,10 +511,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 let mut cache = self.cache.lock().await;
                 match lookup {
                     Ok(bytes) => {
+                        let current = current_cache_size(&cache);
                         if ensure_enough_cache_space(
                             &mut *cache,
                             self.limit_bytes(),
-                            self.current,
+                            current,
                             bytes.len(),
                         ) {
                             let cached = cache
@@ -547,7 +556,12 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
         let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        let current = current_cache_size(&cache);
+        if !cache.contains(&id)
+            && ensure_enough_cache_space(&mut cache, self.limit_bytes(), current, bytes.len())
+        {
+            cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 627bff5571ed6cf20a4b5b90f3312d180e111ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 17/22] fix: looking up the changes for predicate id 0 on disk
 returned triples of other predicates

---
 src/storage/layer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 056f21d..b93e137 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -2600,6 +2600,11 @@ pub(crate) async fn file_triple_iterator_by_predicate<F: FileLoad + FileStore>(
     predicate_wavelet_files: BitIndexFiles<F>,
     predicate: u64,
 ) -> io::Result<impl Iterator<Item = IdTriple> + Send> {
+    if predicate == 0 {
+        // 0 is not a predicate, it marks subjects without triples
+        return Ok(OptInternalLayerTriplePredicateIterator(None));
+    }
+
     let s_p_maps = s_p_adjacency_list_files.map_all().await?;
     let sp_o_maps = sp_o_adjacency_list_files.map_all().await?;
     let predicate_wavelet_maps = predicate_wavelet_files.map_all().await?;
-- 
2.43.0


From 16545e99c741b5bcfbff4dd3eacffb6d7769c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 18/22] fix: applying a delta to a committed builder reported
 success

---
 src/store/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..0f8dbd9 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -169,24 +169,26 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        let (added, removed) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                triple_additions.par_bridge().try_for_each(|t| {
+                    match delta.id_triple_to_string(&t) {
+                        Some(st) => self.add_value_triple(st),
+                        None => Ok(()),
+                    }
+                })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
+                triple_removals.par_bridge().try_for_each(|t| {
+                    match delta.id_triple_to_string(&t) {
+                        Some(st) => self.remove_value_triple(st),
+                        None => Ok(()),
+                    }
                 })
             },
         );
 
-        Ok(())
+        added.and(removed)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
-- 
2.43.0


From 45b18a6c50d25a64aee8ab5f39500bc456fb1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 19/22] fix: applying a diff to a committed builder panicked
 instead of reporting an error

---
 src/store/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 0f8dbd9..604db75 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -195,34 +195,41 @@ impl StoreLayerBuilder {
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
+        let (removed, added) = rayon::join(
             || {
                 if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
-                        if let Some(st) = this.id_triple_to_string(&t) {
-                            if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
+                    this.triples().par_bridge().try_for_each(|t| {
+                        match this.id_triple_to_string(&t) {
+                            Some(st) if !other.value_triple_exists(&st) => {
+                                self.remove_value_triple(st)
                             }
+                            _ => Ok(()),
                         }
                     })
-                };
+                } else {
+                    Ok(())
+                }
             },
             || {
-                other.triples().par_bridge().for_each(|t| {
+                other.triples().par_bridge().try_for_each(|t| {
                     if let Some(st) = other.id_triple_to_string(&t) {
                         if let Some(this) = self.parent() {
                             if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
+                                self.add_value_triple(st)
+                            } else {
+                                Ok(())
                             }
                         } else {
-                            self.add_value_triple(st).unwrap()
-                        };
+                            self.add_value_triple(st)
+                        }
+                    } else {
+                        Ok(())
                     }
                 })
             },
         );
 
-        Ok(())
+        removed.and(added)
     }
 }
 
-- 
2.43.0


From 668773ea1fbab3d86180e51f58b3c1f80b58c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 20/22] fix: report a failed read of a file inside an archive
 instead of ending the file there

---
 src/storage/archive.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 3e5d88a..a494f59 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1045,8 +1045,9 @@ impl AsyncRead for ArchiveSliceReader {
 
         let before_len = buf.filled().len();
         let read = AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf);
-        if let Poll::Pending = read {
-            return Poll::Pending;
+        if !matches!(read, Poll::Ready(Ok(()))) {
+            // not ready yet, or failed
+            return read;
         }
 
         let after_len = buf.filled().len();
-- 
2.43.0


From 6be332b86b8bff8662471af00ab124c0a15f175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 21/22] fix: keep a layer's own name when its rollup has itself
 been rolled up

---
 src/storage/layer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index b93e137..60b0791 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1502,14 +1502,18 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                         }
 
                         let original_parent;
-                        if self.layer_has_parent(current_layer).await? {
+                        if let Some((_, known_original_parent)) = rollup_option {
+                            // a rollup which has itself been rolled up. This is still
+                            // about the layer that the first rollup stands in for.
+                            original_parent = known_original_parent;
+                        } else if self.layer_has_parent(current_layer).await? {
                             original_parent = Some(self.read_parent_file(current_layer).await?);
                         } else {
                             original_parent = None;
                         }
 
                         layers_to_load.pop().unwrap(); // we don't want to load this, we want to load the rollup instead!
-                        layers_to_load.push((current_layer, Some((rollup, original_parent))));
+                        layers_to_load.push((original_layer, Some((rollup, original_parent))));
                     } else if self.layer_has_parent(current_layer).await? {
                         let parent = self.read_parent_file(current_layer).await?;
                         layers_to_load.push((parent, None));
-- 
2.43.0


From c2d2afc2a7b7a51d4df0a4ad0279ff0d7ec2b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 22/22] fix: merging a rolled up base layer mixed up names
 because its id maps were ignored

---
 src/layer/internal/base_merge.rs | 40 ++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/layer/internal/base_merge.rs b/src/layer/internal/base_merge.rs
index bc1d362..5a881e2 100644
--- a/src/layer/internal/base_merge.rs
+++ b/src/layer/internal/base_merge.rs
@@ -3,13 +3,15 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use futures::{Stream, StreamExt, TryStreamExt};
+use futures::{stream, Stream, StreamExt, TryStreamExt};
 use tempfile::TempDir;
 use tokio::{fs::OpenOptions, io::AsyncWriteExt};
 
 use crate::{
     chrono_log,
-    layer::{builder::build_indexes, open_base_triple_stream, BaseLayerFileBuilderPhase2},
+    layer::{
+        builder::build_indexes, open_base_triple_stream, BaseLayerFileBuilderPhase2, IdMap,
+    },
     storage::{
         directory::DirectoryLayerStore, AdjacencyListFiles, BaseLayerFiles, DictionaryFiles,
         FileLoad, FileStore, PersistentLayerStore, TypedDictionaryFiles,
@@ -18,7 +20,7 @@ use crate::{
 use tdb_succinct::{
     dedup_merge_string_dictionaries_stream, dedup_merge_typed_dictionary_streams,
     stream::{TfcDictStream, TfcTypedDictStream},
-    util::heap_sorted_stream,
+    util::{calculate_width, heap_sorted_stream},
 };
 
 #[allow(unused)]
@@ -229,15 +231,43 @@ pub async fn merge_base_layers<F: FileLoad + FileStore + 'static, P: AsRef<Path>
         let inner_node_map = &node_map[ix];
         let inner_predicate_map = &predicate_map[ix];
         let inner_value_map = &value_map[ix];
-        let stream = raw_stream.map_ok(move |triple| {
+        // a base layer which is a rollup does not number its names in
+        // dictionary order, but has id maps to get to that order.
+        let idmaps = input.id_map_files.map_all().await?;
+        let has_idmap =
+            idmaps.node_value_idmap_maps.is_some() || idmaps.predicate_idmap_maps.is_some();
+        let node_value_idmap = idmaps
+            .node_value_idmap_maps
+            .map(|m| {
+                let count = inner_node_map.len() + inner_value_map.len();
+                IdMap::from_maps(m, calculate_width(count as u64))
+            })
+            .unwrap_or_default();
+        let predicate_idmap = idmaps
+            .predicate_idmap_maps
+            .map(|m| IdMap::from_maps(m, calculate_width(inner_predicate_map.len() as u64)))
+            .unwrap_or_default();
+        let stream = raw_stream.map_ok(move |(subject, predicate, object)| {
             map_triple(
-                triple,
+                (
+                    node_value_idmap.outer_to_inner(subject),
+                    predicate_idmap.outer_to_inner(predicate),
+                    node_value_idmap.outer_to_inner(object),
+                ),
                 inner_node_map,
                 inner_predicate_map,
                 inner_value_map,
                 node_count,
             )
         });
+        let stream = if has_idmap {
+            // the mapped triples are not in order yet
+            let mut triples: Vec<_> = stream.try_collect().await?;
+            triples.sort();
+            stream::iter(triples.into_iter().map(Ok)).right_stream()
+        } else {
+            stream.left_stream()
+        };
         triple_streams.push(stream);
     }
 
-- 
2.43.0

