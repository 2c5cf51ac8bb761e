From 2575d1141ccda497f1b27bd6a6593486196508bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 01/76] fix: delete edges of a removed node in components
 created by the same update

When a node was deleted, only the components which existed before the update
list were cleaned up, so edges added to a new component earlier in the same list
were left behind as edges of a node that does not exist.
---
 core/src/graph/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 5d1f277..0f6bd94 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -403,8 +403,6 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
-        let all_components = self.get_all_components(None, None);
-
         let mut update_graph_index = ComponentType::init_update_graph_index(self)?;
         // Cache the expensive mapping of node names to IDs
         let cache_size = NonZeroUsize::new(1_000).ok_or(GraphAnnisCoreError::ZeroCacheSize)?;
@@ -456,8 +454,9 @@ impl<CT: ComponentType> Graph<CT> {
                         self.node_annos.remove_item(&existing_node_id)?;
 
                         // delete all edges pointing to this node either as source or target
-                        for c in all_components.iter() {
-                            if let Ok(gs) = self.get_or_create_writable(c) {
+                        // (including the ones of components created by this update)
+                        for c in self.get_all_components(None, None) {
+                            if let Ok(gs) = self.get_or_create_writable(&c) {
                                 gs.delete_node(existing_node_id)?;
                             }
                         }
-- 
2.43.0


From 92d1ba3d34455831cf1e353d4066653d526b8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 02/76] fix: remove the replaced value from the on-disk
 annotation index

Overwriting an annotation value left the entry for the old value in the value
index, so searches for the old value still returned the item.
---
 core/src/annostorage/ondisk.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d6b13d5..df7bd04 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -366,6 +366,20 @@ where
             .is_none_or(|largest_item| item <= *largest_item);
         let already_existed =
             item_smaller_than_largest && self.by_container.contains_key(&by_container_key)?;
+        if already_existed
+            && let Some(old_value) = self
+                .by_container
+                .get(&by_container_key)?
+                .map(|v| v.into_owned())
+            && old_value != anno.val
+        {
+            // The value is replaced: the index must not contain the old value anymore
+            self.by_anno_qname.remove(&create_by_anno_qname_key(
+                item.clone(),
+                anno_key_symbol,
+                &old_value,
+            ))?;
+        }
         self.by_container
             .insert(by_container_key, anno.val.clone())?;
 
-- 
2.43.0


From 2c4183d93a33156d0a83e585c9e5a732b3dc1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 03/76] fix: ignore update events for non-existing nodes when
 tracking invalid index entries

---
 graphannis/src/annis/db/aql/model.rs | 52 ++++++++++++++++------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4ad8807..c7db7ac 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -1,6 +1,5 @@
 use crate::{
     annis::{db::token_helper::TokenHelper, util::quicksort},
-    errors::GraphAnnisError,
     graph::{Edge, EdgeContainer, GraphStorage, NodeID},
 };
 use facet::Facet;
@@ -187,16 +186,15 @@ impl AQLUpdateGraphIndex {
         &mut self,
         node_name: Cow<String>,
         graph: &AnnotationGraph,
-    ) -> std::result::Result<NodeID, ComponentTypeError> {
+    ) -> std::result::Result<Option<NodeID>, ComponentTypeError> {
         if let Some(id) = self.cached_node_ids.get(&node_name)? {
-            return Ok(*id);
+            return Ok(Some(*id));
         } else if let Some(id) = graph.get_node_annos().get_node_id_from_name(&node_name)? {
             self.cached_node_ids.insert(node_name.to_string(), id)?;
-            return Ok(id);
+            return Ok(Some(id));
         }
-        Err(ComponentTypeError(
-            GraphAnnisError::NoSuchNodeID(node_name.to_string()).into(),
-        ))
+        // Update events for non-existing nodes are ignored
+        Ok(None)
     }
 
     fn calculate_invalidated_nodes_by_coverage(
@@ -471,9 +469,10 @@ impl ComponentType for AnnotationComponentType {
     ) -> std::result::Result<(), ComponentTypeError> {
         match update {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
-                let existing_node_id =
-                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?;
-                if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                    && !index.invalid_nodes.contains_key(&existing_node_id)?
+                {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
             }
@@ -492,15 +491,19 @@ impl ComponentType for AnnotationComponentType {
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken
                     {
-                        let source = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        if let Some(source) = index
+                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        }
                     }
 
                     if ctype == AnnotationComponentType::Ordering {
-                        let target = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        if let Some(target) = index
+                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        }
                     }
                 }
             }
@@ -541,16 +544,19 @@ impl ComponentType for AnnotationComponentType {
                     || ctype == AnnotationComponentType::LeftToken
                     || ctype == AnnotationComponentType::RightToken
                 {
-                    let source =
-                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?;
-
-                    index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    if let Some(source) =
+                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    }
                 }
 
                 if ctype == AnnotationComponentType::Ordering {
-                    let target =
-                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?;
-                    index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    if let Some(target) =
+                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 55f99e862114513c6fe274222ced5268c850ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 04/76] fix: detect cycles which are not reachable from any
 root node in the graph storage statistics

---
 core/src/graph/storage/adjacencylist.rs  | 6 ++++++
 core/src/graph/storage/disk_adjacency.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6b23a55..9164efc 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -433,17 +433,23 @@ impl WriteableGraphStorage for AdjacencyListStorage {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
+            let mut visited: FxHashSet<NodeID> = FxHashSet::default();
             for root_node in &roots {
                 let mut dfs = CycleSafeDFS::new(self, *root_node, 0, usize::MAX);
                 for step in &mut dfs {
                     let step = step?;
                     number_of_visits += 1;
+                    visited.insert(step.node);
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
                 if dfs.is_cyclic() {
                     stats.cyclic = true;
                 }
             }
+            if visited.len() < stats.nodes {
+                // nodes which are not reachable from any root must be part of or behind a cycle
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index d3e9924..666e0f1 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -432,17 +432,23 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
+            let mut visited: FxHashSet<NodeID> = FxHashSet::default();
             for root_node in &roots {
                 let mut dfs = CycleSafeDFS::new(self, *root_node, 0, usize::MAX);
                 for step in &mut dfs {
                     let step = step?;
                     number_of_visits += 1;
+                    visited.insert(step.node);
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
                 if dfs.is_cyclic() {
                     stats.cyclic = true;
                 }
             }
+            if visited.len() < stats.nodes {
+                // nodes which are not reachable from any root must be part of or behind a cycle
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
-- 
2.43.0


From 5d92880a73f82726e15419220ff66678fabaa44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 05/76] fix: do not report removed entries in
 DiskMap::contains_key after they have been evicted to disk

---
 core/src/util/disk_collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index e1b1996..ac08d78 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -161,9 +161,11 @@ where
 
         // Check C1 (BTree disk index)
         if let Some(c1) = &self.c1
-            && c1.contains_key(key)?
+            && let Some(entry) = c1.get(key)?
         {
-            return Ok(true);
+            // A tombstone entry means that the value was explicitly deleted. In this case,
+            // do not query C2.
+            return Ok(entry.is_some());
         }
 
         // Use a iterator on the single disk to check if there is an entry with this, without getting the value.
-- 
2.43.0


From 57f83c760e86d6fd22e511df969eb6b6d4921bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 06/76] fix: find range start in DiskMap when it is between two
 blocks of the disk table

---
 core/src/util/disk_collections.rs | 33 +++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index ac08d78..b2d1d3d 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -569,6 +569,35 @@ where
     }
 }
 
+/// Position the iterator on the first entry of the table with a key larger or equal to the given key.
+///
+/// [`TableIterator::seek`] only searches in the single block whose index entry is larger or equal to
+/// the key. But index entries are only separators, so the key can be larger than all entries
+/// of this block. In this case the iterator is invalid after the seek even if there are larger
+/// entries in the following blocks.
+fn seek_to_key(table: &Table, table_it: &mut TableIterator, key: &[u8]) {
+    table_it.seek(key);
+    if table_it.valid() {
+        return;
+    }
+    // Advancing restarts at the beginning of the block that has been selected by the seek operation.
+    // If the key is larger than any entry of the table, no block has been selected and
+    // the iterator restarts with the first block.
+    let selected_block_offset = table.approx_offset_of(key);
+    while table_it.advance() {
+        match table_it.current_key() {
+            Some(current_key) if current_key < key => {
+                if table.approx_offset_of(current_key) != selected_block_offset {
+                    break;
+                }
+            }
+            Some(_) => return,
+            None => break,
+        }
+    }
+    table_it.reset();
+}
+
 /// An iterator implementation for the case that there is only a single disk-table and no C0
 struct SimplifiedRange<K, V> {
     range_start: Bound<KeyVec>,
@@ -604,7 +633,7 @@ where
                 let mut key = Vec::default();
                 let mut value = Vec::default();
 
-                table_it.seek(start);
+                seek_to_key(disk_table, &mut table_it, start);
 
                 if table_it.valid() && table_it.current(&mut key, &mut value) {
                     let key: &[u8] = &key;
@@ -645,7 +674,7 @@ where
                 let mut key: Vec<u8> = Vec::default();
                 let mut value = Vec::default();
 
-                table_it.seek(start_bound);
+                seek_to_key(disk_table, &mut table_it, start_bound);
                 if table_it.valid() && table_it.current(&mut key, &mut value) {
                     let key: &[u8] = &key;
                     if key == start_bound {
-- 
2.43.0


From ee43bd2ff5a20690927c82b42e6da64b93536963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 07/76] fix: reset number of annotations when clearing the
 in-memory annotation storage

---
 core/src/annostorage/inmemory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index b97abed..de092af 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -64,6 +64,7 @@ impl<T: Ord + Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + De
         self.histogram_bounds.clear();
         self.largest_item = None;
         self.anno_values.clear();
+        self.total_number_of_annos = 0;
     }
 
     fn create_sparse_anno(&mut self, orig: Annotation) -> Result<SparseAnnotation> {
-- 
2.43.0


From bd3db31be1bd5092fa8ae8e99bda30d8c015134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 08/76] fix: return most frequent values first in the on-disk
 annotation storage

---
 core/src/annostorage/ondisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index df7bd04..021456b 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1047,6 +1047,7 @@ where
             values_with_count.sort();
             let result = values_with_count
                 .into_iter()
+                .rev()
                 .map(|(_count, val)| val)
                 .collect();
             Ok(result)
-- 
2.43.0


From 7639d8eb2c7145983c6eeb062bebcf524e3d4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 09/76] fix: regular expression search on the on-disk
 annotation storage with alternatives that share a partial UTF-8 sequence

---
 core/src/annostorage/ondisk.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 021456b..450810f 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -771,7 +771,13 @@ where
                 let prefix_bytes = regex_literal_sequence
                     .map(|seq| Vec::from(seq.longest_common_prefix().unwrap_or_default()))
                     .unwrap_or_default();
-                let prefix = try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes));
+                // The common prefix is determined on bytes and can end in the middle of a character
+                let prefix = match std::str::from_utf8(&prefix_bytes) {
+                    Ok(prefix) => prefix,
+                    Err(e) => {
+                        try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes[..e.valid_up_to()]))
+                    }
+                };
 
                 let it = self
                     .matching_items_by_prefix(namespace, name, prefix.to_string())
-- 
2.43.0


From 70c4fab3841d72144a281769caada3aa4c0f1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 10/76] fix: use matching B-tree configuration when loading
 on-disk annotations

---
 core/src/annostorage/ondisk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 450810f..6991069 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1144,7 +1144,7 @@ where
                 Some(&location.join("by_container.bin")),
                 EVICTION_STRATEGY,
                 BLOCK_CACHE_CAPACITY,
-                BtreeConfig::default().fixed_value_size(T::key_size() + 9),
+                BtreeConfig::default().fixed_key_size(T::key_size() + 16),
             )?;
             self.by_anno_qname = DiskMap::new(
                 Some(&location.join("by_anno_qname.bin")),
-- 
2.43.0


From 25968a909a2cf370d8d6109145f4bcdaaa66ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 11/76] fix: exact and prefix range bounds for values with NUL
 and maximum code point characters in the on-disk annotation storage

---
 core/src/annostorage/ondisk.rs | 99 ++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 6991069..351d260 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -7,7 +7,7 @@ use crate::serializer::{FixedSizeKeySerializer, KeySerializer};
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::disk_collections::{DiskMap, EvictionStrategy};
 use crate::{try_as_boxed_iter, util};
-use core::ops::Bound::*;
+use core::ops::Bound::{self, *};
 use itertools::Itertools;
 use rand::seq::IteratorRandom;
 use regex_syntax::Parser;
@@ -93,6 +93,42 @@ fn create_by_anno_qname_key<T: FixedSizeKeySerializer>(
     result
 }
 
+/// Creates the range of keys in the `by_anno_qname` tree for all annotations with the given key
+/// and a value that starts with the given prefix.
+fn create_by_anno_qname_prefix_range(
+    anno_key_symbol: usize,
+    value_prefix: &str,
+) -> (Bound<ByteBuf>, Bound<ByteBuf>) {
+    let mut lower_bound: ByteBuf = ByteBuf::from(anno_key_symbol.create_key().to_vec());
+    lower_bound.extend(value_prefix.as_bytes());
+    // The byte 0xFF is never part of an UTF-8 encoded string
+    let mut upper_bound = lower_bound.clone();
+    upper_bound.push(u8::MAX);
+    (Included(lower_bound), Excluded(upper_bound))
+}
+
+/// Creates the range of keys in the `by_anno_qname` tree for all annotations with the given key
+/// and exact value.
+///
+/// The range can contain additional keys if there are values that contain the `\0` character,
+/// use [`has_value_length`] to exclude them.
+fn create_by_anno_qname_value_range<T: FixedSizeKeySerializer>(
+    anno_key_symbol: usize,
+    value: &str,
+) -> (Bound<ByteBuf>, Bound<ByteBuf>) {
+    let mut lower_bound: ByteBuf = ByteBuf::from(anno_key_symbol.create_key().to_vec());
+    lower_bound.extend(value.as_bytes());
+    lower_bound.push(0);
+    let mut upper_bound = lower_bound.clone();
+    upper_bound.extend(std::iter::repeat_n(u8::MAX, T::key_size()));
+    (Included(lower_bound), Included(upper_bound))
+}
+
+/// Checks that the value which is part of the key of the `by_anno_qname` tree has the given length in bytes.
+fn has_value_length<T: FixedSizeKeySerializer>(by_anno_qname_key: &[u8], length: usize) -> bool {
+    by_anno_qname_key.len() == std::mem::size_of::<usize>() + length + 1 + T::key_size()
+}
+
 impl<T> AnnoStorageImpl<T>
 where
     T: FixedSizeKeySerializer
@@ -196,19 +232,17 @@ where
             .into_iter()
             .filter_map(move |k| self.anno_key_symbols.get_symbol(&k))
             .flat_map(move |anno_key_symbol| {
-                let lower_bound_value = if let Some(value) = &value { value } else { "" };
-                let lower_bound =
-                    create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, lower_bound_value);
-
-                let upper_bound_value = if let Some(value) = &value {
-                    Cow::Borrowed(value)
+                let range = if let Some(value) = &value {
+                    create_by_anno_qname_value_range::<T>(anno_key_symbol, value)
                 } else {
-                    Cow::Owned(std::char::MAX.to_string())
+                    create_by_anno_qname_prefix_range(anno_key_symbol, "")
                 };
-
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_bound_value);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                let value_length = value.as_ref().map(|v| v.len());
+                self.by_anno_qname
+                    .range(range)
+                    .filter_ok(move |(data, _)| {
+                        value_length.is_none_or(|length| has_value_length::<T>(data, length))
+                    })
             })
             .fuse()
             .map(move |item| match item {
@@ -254,13 +288,8 @@ where
             .into_iter()
             .filter_map(move |k| self.anno_key_symbols.get_symbol(&k))
             .flat_map(move |anno_key_symbol| {
-                let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, &prefix);
-
-                let mut upper_val = prefix.clone();
-                upper_val.push(std::char::MAX);
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_val);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                self.by_anno_qname
+                    .range(create_by_anno_qname_prefix_range(anno_key_symbol, &prefix))
             })
             .fuse()
             .map(move |item| match item {
@@ -326,12 +355,10 @@ where
         anno_key: &AnnoKey,
     ) -> Box<dyn Iterator<Item = Result<(ByteBuf, bool)>> + 'a> {
         if let Some(anno_key_symbol) = self.anno_key_symbols.get_symbol(anno_key) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, "");
-
-            let upper_bound =
-                create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &std::char::MAX.to_string());
-
-            Box::new(self.by_anno_qname.range(lower_bound..upper_bound))
+            Box::new(
+                self.by_anno_qname
+                    .range(create_by_anno_qname_prefix_range(anno_key_symbol, "")),
+            )
         } else {
             Box::from(std::iter::empty())
         }
@@ -1190,10 +1217,13 @@ where
 impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
     fn get_node_id_from_name(&self, node_name: &str) -> Result<Option<NodeID>> {
         if let Some(node_name_symbol) = self.anno_key_symbols.get_symbol(&NODE_NAME_KEY) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
-            let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
-
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let mut results = self
+                .by_anno_qname
+                .range(create_by_anno_qname_value_range::<NodeID>(
+                    node_name_symbol,
+                    node_name,
+                ))
+                .filter_ok(|(data, _)| has_value_length::<NodeID>(data, node_name.len()));
             if let Some(item) = results.next() {
                 let (data, _) = item?;
                 let item_id = NodeID::parse_key(&data[data.len() - NodeID::key_size()..])?;
@@ -1205,10 +1235,13 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
 
     fn has_node_name(&self, node_name: &str) -> Result<bool> {
         if let Some(node_name_symbol) = self.anno_key_symbols.get_symbol(&NODE_NAME_KEY) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
-            let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
-
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let mut results = self
+                .by_anno_qname
+                .range(create_by_anno_qname_value_range::<NodeID>(
+                    node_name_symbol,
+                    node_name,
+                ))
+                .filter_ok(|(data, _)| has_value_length::<NodeID>(data, node_name.len()));
             return Ok(results.next().is_some());
         }
         Ok(false)
-- 
2.43.0


From 40317255cf9cfea5f5e5b6bcd35094bbf8c6cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 12/76] fix: distance bounds of inverse and very long searches
 in linear graph storages

---
 core/src/graph/storage/linear.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index a5a6bca..16c751f 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -216,8 +216,10 @@ where
                 std::ops::Bound::Unbounded => {
                     return Box::new(chain[min_distance..].iter().map(|n| Ok(*n)));
                 }
-                std::ops::Bound::Included(max_distance) => offset + max_distance + 1,
-                std::ops::Bound::Excluded(max_distance) => offset + max_distance,
+                std::ops::Bound::Included(max_distance) => {
+                    offset.saturating_add(max_distance).saturating_add(1)
+                }
+                std::ops::Bound::Excluded(max_distance) => offset.saturating_add(max_distance),
             };
             // clip to chain length
             let max_distance = std::cmp::min(chain.len(), max_distance);
@@ -241,17 +243,17 @@ where
             let max_distance = match max_distance {
                 std::ops::Bound::Unbounded => 0,
                 std::ops::Bound::Included(max_distance) => offset.saturating_sub(max_distance),
-                std::ops::Bound::Excluded(max_distance) => offset.saturating_sub(max_distance + 1),
+                std::ops::Bound::Excluded(max_distance) => {
+                    offset.saturating_sub(max_distance.saturating_sub(1))
+                }
             };
 
-            if let Some(min_distance) = offset.checked_sub(min_distance) {
-                if min_distance < chain.len() && max_distance <= min_distance {
-                    // return all entries in the chain between min_distance..max_distance (inclusive)
-                    return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
-                } else if max_distance < chain.len() {
-                    // return all entries in the chain between min_distance..max_distance
-                    return Box::new(chain[max_distance..chain.len()].iter().map(|n| Ok(*n)));
-                }
+            if let Some(min_distance) = offset.checked_sub(min_distance)
+                && min_distance < chain.len()
+                && max_distance <= min_distance
+            {
+                // return all entries in the chain between min_distance..max_distance (inclusive)
+                return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
             }
         }
         Box::new(std::iter::empty())
-- 
2.43.0


From a3c9f9a5e375b8b350c57af75b2583694298b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 13/76] fix: check all paths between two nodes in is_connected
 of pre/post order graph storages

---
 core/src/graph/storage/prepost.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 54c382b..a520e49 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -453,7 +453,10 @@ where
                             && source_level <= target_level
                         {
                             let diff_level = target_level - source_level;
-                            return Ok(min_distance <= diff_level && diff_level <= max_distance);
+                            // There can be more than one path between both nodes
+                            if min_distance <= diff_level && diff_level <= max_distance {
+                                return Ok(true);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 3ef5bfe7f8ca20633f6531b04fb561c200cda615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 14/76] fix: distance of a node to itself and replaced edge
 labels in disk path graph storages

---
 core/src/graph/storage/disk_path.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a5a668c..89d9df9 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -237,8 +237,11 @@ impl GraphStorage for DiskPathStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
+        if source == target {
+            return Ok(Some(0));
+        }
         let path = self.path_for_node(source)?;
-        // Find the target node in the path. The path starts at distance "0".
+        // Find the target node in the path. The source node itself is not part of the path.
         let result = path
             .into_iter()
             .position(|n| n == target)
@@ -253,6 +256,9 @@ impl GraphStorage for DiskPathStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target && min_distance == 0 {
+            return Ok(true);
+        }
         let path = self.path_for_node(source)?;
         // There is a connection when the target node is located in the path (given the min/max constraints)
         let start = min_distance.saturating_sub(1).clamp(0, path.len());
@@ -280,6 +286,7 @@ impl GraphStorage for DiskPathStorage {
         orig: &dyn GraphStorage,
     ) -> Result<()> {
         self.inverse_edges.clear();
+        self.annos.clear()?;
 
         // Create a new file which is large enough to contain the paths for all nodes.
         let max_node_id = orig
-- 
2.43.0


From 3122d19ca2995717bdace06aee88bddc543c3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 15/76] fix: return length of the shortest path as distance in
 adjacency list graph storages

---
 core/src/annostorage/ondisk.rs            |  8 +++-----
 core/src/graph/storage/adjacencylist.rs   | 12 ++---------
 core/src/graph/storage/dense_adjacency.rs | 14 ++-----------
 core/src/graph/storage/disk_adjacency.rs  | 12 +----------
 core/src/graph/storage/mod.rs             | 25 +++++++++++++++++++++++
 5 files changed, 33 insertions(+), 38 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 351d260..cf4240a 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -238,11 +238,9 @@ where
                     create_by_anno_qname_prefix_range(anno_key_symbol, "")
                 };
                 let value_length = value.as_ref().map(|v| v.len());
-                self.by_anno_qname
-                    .range(range)
-                    .filter_ok(move |(data, _)| {
-                        value_length.is_none_or(|length| has_value_length::<T>(data, length))
-                    })
+                self.by_anno_qname.range(range).filter_ok(move |(data, _)| {
+                    value_length.is_none_or(|length| has_value_length::<T>(data, length))
+                })
             })
             .fuse()
             .map(move |item| match item {
diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 9164efc..b865b7a 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -11,6 +11,7 @@ use super::{
     EdgeContainer, GraphStatistic, GraphStorage, WriteableGraphStorage, deserialize_gs_field,
     legacy::{self, AdjacencyListStorageV1},
     load_statistics_from_location, save_statistics_to_toml, serialize_gs_field,
+    shortest_path_length,
 };
 use itertools::Itertools;
 use rustc_hash::FxHashSet;
@@ -207,16 +208,7 @@ impl GraphStorage for AdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_path_length(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 66c6413..0e1c946 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -1,7 +1,7 @@
 use super::{
     EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field,
     legacy::DenseAdjacencyListStorageV1, load_statistics_from_location, save_statistics_to_toml,
-    serialize_gs_field,
+    serialize_gs_field, shortest_path_length,
 };
 use crate::{
     annostorage::{
@@ -127,17 +127,7 @@ impl GraphStorage for DenseAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_path_length(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index 666e0f1..26c20e9 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -216,17 +216,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_path_length(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 6d3e4f2..c8bd2b9 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -16,7 +16,9 @@ use crate::{
     types::{AnnoKey, Annotation, Edge, NodeID},
 };
 use itertools::Itertools;
+use rustc_hash::FxHashSet;
 use serde::{Deserialize, Serialize};
+use std::collections::VecDeque;
 use std::{self, path::Path};
 
 /// Some general statistical numbers specific to a graph component
@@ -201,6 +203,29 @@ pub trait GraphStorage: EdgeContainer {
     fn save_to(&self, location: &Path) -> Result<()>;
 }
 
+/// Calculate the length of the shortest path between two nodes with a breadth-first search.
+pub(crate) fn shortest_path_length(
+    container: &dyn EdgeContainer,
+    source: NodeID,
+    target: NodeID,
+) -> Result<Option<usize>> {
+    let mut visited = FxHashSet::<NodeID>::default();
+    visited.insert(source);
+    let mut queue = VecDeque::from([(source, 0)]);
+    while let Some((node, distance)) = queue.pop_front() {
+        if node == target {
+            return Ok(Some(distance));
+        }
+        for next in container.get_outgoing_edges(node) {
+            let next = next?;
+            if visited.insert(next) {
+                queue.push_back((next, distance + 1));
+            }
+        }
+    }
+    Ok(None)
+}
+
 pub fn serialize_gs_field<T>(field: &T, field_name: &str, location: &Path) -> Result<()>
 where
     T: Serialize,
-- 
2.43.0


From d2c5530fa9678d7bb52ba1d42cfc303213177224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 16/76] fix: encode layer and name of components when using
 them as file names

---
 core/src/graph/mod.rs | 84 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 13 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 0f6bd94..e8360e9 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -12,6 +12,7 @@ use crate::{
     types::{AnnoKey, Annotation, Component, ComponentType, Edge, NodeID},
 };
 use clru::CLruCache;
+use percent_encoding::{AsciiSet, CONTROLS, percent_decode_str, utf8_percent_encode};
 use rayon::prelude::*;
 use std::ops::Bound::Included;
 use std::path::{Path, PathBuf};
@@ -78,19 +79,79 @@ fn load_component_from_disk(component_path: &Path) -> Result<Arc<dyn GraphStorag
     Ok(gs)
 }
 
+/// These characters can't be part of the file name used for the layer or name of a component.
+const COMPONENT_PATH_ENCODE_SET: &AsciiSet = &CONTROLS.add(b'/').add(b'\\').add(b'%');
+/// Used to encode complete names that have a special meaning as file name.
+const RESERVED_PATH_ENCODE_SET: &AsciiSet = &COMPONENT_PATH_ENCODE_SET.add(b'.').add(b'_');
+
+/// Get the file name used for the layer or name of a component.
+fn encode_path_segment(segment: &str) -> String {
+    // Don't mistake the segment for a parent folder, the placeholder for the empty layer or for the
+    // files a graph storage with the empty name has in the same folder.
+    let is_reserved = segment == "."
+        || segment == ".."
+        || segment == DEFAULT_EMPTY_LAYER
+        || segment == crate::annostorage::ondisk::SUBFOLDER_NAME
+        || [".bin", ".cfg", ".toml"]
+            .iter()
+            .any(|e| segment.ends_with(e));
+    let encode_set = if is_reserved {
+        RESERVED_PATH_ENCODE_SET
+    } else {
+        COMPONENT_PATH_ENCODE_SET
+    };
+    utf8_percent_encode(segment, encode_set).to_string()
+}
+
+/// Get the original layer or name from its file name.
+fn decode_path_segment(file_name: &str) -> String {
+    let decoded = percent_decode_str(file_name).decode_utf8_lossy();
+    if encode_path_segment(&decoded) == file_name {
+        decoded.into()
+    } else {
+        // This name was written by an older version which did not encode it
+        file_name.to_string()
+    }
+}
+
 fn component_to_relative_path<CT: ComponentType>(c: &Component<CT>) -> PathBuf {
     let mut p = PathBuf::new();
     p.push("gs");
     p.push(c.get_type().to_string());
-    p.push(if c.layer.is_empty() {
-        DEFAULT_EMPTY_LAYER
+    if c.layer.is_empty() {
+        p.push(DEFAULT_EMPTY_LAYER);
     } else {
-        &c.layer
-    });
-    p.push(c.name.as_str());
+        p.push(encode_path_segment(&c.layer));
+    }
+    if !c.name.is_empty() {
+        p.push(encode_path_segment(&c.name));
+    }
     p
 }
 
+/// Find the folder of a component in the folder `base` that contains the graph.
+fn find_component_dir<CT: ComponentType>(base: &Path, c: &Component<CT>) -> PathBuf {
+    let encoded = base.join(component_to_relative_path(c));
+    let is_plain = |s: &str| !s.contains(['/', '\\']) && s != "." && s != "..";
+    if !encoded.exists() && is_plain(&c.layer) && is_plain(&c.name) {
+        // Older versions did not encode the names
+        let layer = if c.layer.is_empty() {
+            DEFAULT_EMPTY_LAYER
+        } else {
+            &c.layer
+        };
+        let unencoded = base
+            .join("gs")
+            .join(c.get_type().to_string())
+            .join(layer)
+            .join(&c.name);
+        if unencoded.is_dir() {
+            return unencoded;
+        }
+    }
+    encoded
+}
+
 fn component_path<CT: ComponentType>(
     location: &Option<PathBuf>,
     c: &Component<CT>,
@@ -105,8 +166,7 @@ fn component_path<CT: ComponentType>(
             } else {
                 p.push("current");
             }
-            p.push(component_to_relative_path(c));
-            Some(p)
+            Some(find_component_dir(&p, c))
         }
         None => None,
     }
@@ -134,13 +194,12 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                     let layer_name = if layer_name_from_file == DEFAULT_EMPTY_LAYER {
                         String::default()
                     } else {
-                        layer_name_from_file.into()
+                        decode_path_segment(&layer_name_from_file)
                     };
                     let empty_name_component =
                         Component::new(c.clone(), layer_name.clone(), String::default());
                     {
-                        let cfg_file = PathBuf::from(location.as_ref())
-                            .join(component_to_relative_path(&empty_name_component))
+                        let cfg_file = find_component_dir(location.as_ref(), &empty_name_component)
                             .join("impl.cfg");
 
                         if cfg_file.is_file() {
@@ -154,10 +213,9 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                         let named_component = Component::new(
                             c.clone(),
                             layer_name.clone(),
-                            name.file_name().to_string_lossy().into(),
+                            decode_path_segment(&name.file_name().to_string_lossy()),
                         );
-                        let cfg_file = PathBuf::from(location.as_ref())
-                            .join(component_to_relative_path(&named_component))
+                        let cfg_file = find_component_dir(location.as_ref(), &named_component)
                             .join("impl.cfg");
 
                         if cfg_file.is_file() {
-- 
2.43.0


From 53dbe40710557518c1c44e84cb41505a1b69697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 17/76] fix: keep all components when saving a graph over an
 older version or restoring it from a backup

---
 core/src/graph/mod.rs               | 59 +++++++++++++++++------------
 core/src/graph/storage/disk_path.rs |  6 ++-
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index e8360e9..878153c 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -370,17 +370,8 @@ impl<CT: ComponentType> Graph<CT> {
         }
 
         if load_from_backup {
-            // save the current corpus under the actual location
-            self.save_to(&location.join("current"))?;
-            // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
-            let tmp_dir = tempfile::Builder::new()
-                .prefix("temporary-graphannis-backup")
-                .tempdir_in(location)?;
-            // the target directory is created and can cause issues on windows: delete it first
-            std::fs::remove_dir(tmp_dir.path())?;
-            std::fs::rename(&backup, tmp_dir.path())?;
-            // remove it after renaming it
-            tmp_dir.close()?;
+            // save the current corpus under the actual location and remove the backup
+            self.internal_save_with_backup(location)?;
         }
 
         Ok(())
@@ -390,13 +381,16 @@ impl<CT: ComponentType> Graph<CT> {
     pub fn save_to(&mut self, location: &Path) -> Result<()> {
         // make sure all components are loaded, otherwise saving them does not make any sense
         self.ensure_loaded_all()?;
-        self.internal_save(&location.join("current"))
+        self.internal_save_with_backup(location)
     }
 
     /// Save the current database at a new `location` and remember it as new internal location.
     pub fn persist_to(&mut self, location: &Path) -> Result<()> {
+        // make sure all components are loaded, they can't be loaded from the old location later
+        self.ensure_loaded_all()?;
+        self.internal_save_with_backup(location)?;
         self.location = Some(location.to_path_buf());
-        self.internal_save(&location.join("current"))
+        Ok(())
     }
 
     /// Clear the graph content.
@@ -415,17 +409,24 @@ impl<CT: ComponentType> Graph<CT> {
         self.node_annos.save_annotations_to(&location)?;
 
         for (c, e) in &self.components {
-            if let Some(ref data) = *e {
-                let dir = PathBuf::from(&location).join(component_to_relative_path(c));
-                std::fs::create_dir_all(&dir)?;
+            let data = match e {
+                Some(data) => data.clone(),
+                None => {
+                    // This component has not been changed, but it must be part of the saved corpus
+                    let component_path = component_path(&self.location, c)
+                        .ok_or(GraphAnnisCoreError::EmptyComponentPath)?;
+                    load_component_from_disk(&component_path)?
+                }
+            };
+            let dir = PathBuf::from(&location).join(component_to_relative_path(c));
+            std::fs::create_dir_all(&dir)?;
 
-                let impl_name = data.serialization_id();
-                data.save_to(&dir)?;
+            let impl_name = data.serialization_id();
+            data.save_to(&dir)?;
 
-                let cfg_path = PathBuf::from(&dir).join("impl.cfg");
-                let mut f_cfg = std::fs::File::create(cfg_path)?;
-                f_cfg.write_all(impl_name.as_bytes())?;
-            }
+            let cfg_path = PathBuf::from(&dir).join("impl.cfg");
+            let mut f_cfg = std::fs::File::create(cfg_path)?;
+            f_cfg.write_all(impl_name.as_bytes())?;
         }
 
         // Save global statistics
@@ -812,13 +813,23 @@ impl<CT: ComponentType> Graph<CT> {
         // is possible.
         let backup_location = location.join("backup");
         let current_location = location.join("current");
-        if !backup_location.exists() {
-            std::fs::rename(&current_location, &backup_location)?;
+        if current_location.exists() {
+            if backup_location.exists() {
+                // This is an incomplete version of an earlier attempt to save the corpus
+                std::fs::remove_dir_all(&current_location)?;
+            } else {
+                std::fs::rename(&current_location, &backup_location)?;
+            }
         }
 
         // Save the complete corpus without the write log to the target location
         self.internal_save(&current_location)?;
 
+        if !backup_location.exists() {
+            // There was no older version
+            return Ok(());
+        }
+
         // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
         let tmp_dir = tempfile::Builder::new()
             .prefix("temporary-graphannis-backup")
diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index 89d9df9..e428ca9 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -399,8 +399,10 @@ impl GraphStorage for DiskPathStorage {
         // Normalize all paths to check if they are the same
         let new_location = location.normalize()?;
         if let Some(old_location) = &self.location {
-            let old_location = old_location.normalize()?;
-            if new_location == old_location {
+            // The files of the old location might have been moved, e.g. to a backup folder
+            if new_location.join("paths.bin").exists()
+                && new_location == old_location.normalize()?
+            {
                 // This is an immutable graph storage so there can't be any
                 // changes to write to the existing location we already use.
                 return Ok(());
-- 
2.43.0


From f41a6cf270455d24afd574fb3e515dde66a5dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 18/76] fix: keep updates in the write-ahead log that have not
 been saved yet when more updates are applied

---
 core/src/graph/mod.rs | 81 ++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 878153c..a387f74 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -172,6 +172,51 @@ fn component_path<CT: ComponentType>(
     }
 }
 
+/// Write the updates to the write-ahead log of the graph at the given location.
+///
+/// If there is already a log with updates that have not been written to the graph files yet, the
+/// new updates are added to it.
+fn write_update_log(location: &Path, u: &GraphUpdate) -> Result<()> {
+    // If an earlier attempt to save the graph failed, the backup is still the version that is
+    // going to be loaded.
+    let backup_path = location.join("backup");
+    let output_path = if backup_path.is_dir() {
+        backup_path
+    } else {
+        location.join("current")
+    };
+    // make sure the output path exits
+    std::fs::create_dir_all(&output_path)?;
+    let log_path = output_path.join("update_log.bin");
+
+    let existing_updates = if log_path.is_file() {
+        let mut all_updates: GraphUpdate =
+            bincode::deserialize_from(std::fs::File::open(&log_path)?)?;
+        for update_event in u.iter()? {
+            let (_, event) = update_event?;
+            all_updates.add_event(event)?;
+        }
+        Some(all_updates)
+    } else {
+        None
+    };
+
+    // Create a temporary directory in the same file system as the output
+    let temporary_dir = tempfile::tempdir_in(&output_path)?;
+    let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
+
+    debug!("writing WAL update log to {:?}", temporary_disk_file.path());
+    bincode::serialize_into(
+        temporary_disk_file.as_file(),
+        existing_updates.as_ref().unwrap_or(u),
+    )?;
+    temporary_disk_file.flush()?;
+    debug!("moving finished WAL update log to {:?}", &log_path);
+    // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
+    temporary_disk_file.persist(&log_path)?;
+    Ok(())
+}
+
 /// List all the components that belong to corpus in the given directory.
 pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
     location: P,
@@ -753,38 +798,20 @@ impl<CT: ComponentType> Graph<CT> {
     {
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
-            if apply_update_result.is_ok() {
-                let current_path = location.join("current");
-                // make sure the output path exits
-                std::fs::create_dir_all(&current_path)?;
-
-                // If successfull write log
-                let log_path = current_path.join("update_log.bin");
-
-                // Create a temporary directory in the same file system as the output
-                let temporary_dir = tempfile::tempdir_in(&current_path)?;
-                let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
-
-                debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-                bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
-                temporary_disk_file.flush()?;
-                debug!("moving finished WAL update log to {:?}", &log_path);
-                // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
-                temporary_disk_file.persist(&log_path)?;
-
-                progress_callback("finished writing WAL update log");
-            } else {
-                trace!(
-                    "error occured while applying updates: {:?}",
-                    &apply_update_result
-                );
+            // If successfull write log
+            let result = apply_update_result.and_then(|_| write_update_log(&location, u));
+            if let Err(e) = result {
+                trace!("error occured while applying updates: {:?}", &e);
                 // load corpus from disk again
                 self.open(&location)?;
                 self.ensure_loaded_all()?;
+                return Err(e);
             }
+            progress_callback("finished writing WAL update log");
+            Ok(())
+        } else {
+            apply_update_result
         }
-
-        apply_update_result
     }
 
     /// A function to persist the changes of a write-ahead-log update on the disk. Should be run in a background thread.
-- 
2.43.0


From b637b7019cc650c14c41fcc2a369662ce8f809d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 19/76] fix: do not define a distance of a node to itself in
 disk path graph storages again

---
 core/src/graph/storage/disk_path.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index e428ca9..00e237d 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -237,11 +237,8 @@ impl GraphStorage for DiskPathStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        if source == target {
-            return Ok(Some(0));
-        }
         let path = self.path_for_node(source)?;
-        // Find the target node in the path. The source node itself is not part of the path.
+        // Find the target node in the path. The path starts at distance "0".
         let result = path
             .into_iter()
             .position(|n| n == target)
@@ -256,9 +253,6 @@ impl GraphStorage for DiskPathStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
-        if source == target && min_distance == 0 {
-            return Ok(true);
-        }
         let path = self.path_for_node(source)?;
         // There is a connection when the target node is located in the path (given the min/max constraints)
         let start = min_distance.saturating_sub(1).clamp(0, path.len());
-- 
2.43.0


From 882c773a68f21056cca28d28d38cf2d1668ff780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 20/76] fix: update token coverage index for named dominance
 components, re-created nodes and changed token labels

---
 graphannis/src/annis/db/aql/model.rs | 30 +++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index c7db7ac..24b4d59 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -451,7 +451,7 @@ impl ComponentType for AnnotationComponentType {
 
         let mut text_coverage_components = FxHashSet::default();
         text_coverage_components
-            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), Some("")));
+            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), None));
         text_coverage_components
             .extend(graph.get_all_components(Some(AnnotationComponentType::Coverage), None));
         Ok(AQLUpdateGraphIndex {
@@ -471,7 +471,28 @@ impl ComponentType for AnnotationComponentType {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
                 if let Some(existing_node_id) =
                     index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
-                    && !index.invalid_nodes.contains_key(&existing_node_id)?
+                {
+                    if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                        index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
+                    }
+                    // The same name can be used for a new node with a different ID
+                    index.cached_node_ids.remove(node_name)?;
+                }
+            }
+            UpdateEvent::AddNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+                ..
+            }
+            | UpdateEvent::DeleteNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+            } if !index.graph_without_nodes && anno_ns == ANNIS_NS && anno_name == TOK => {
+                // The node might become a token or is not a token any longer
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
                 {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
@@ -528,9 +549,8 @@ impl ComponentType for AnnotationComponentType {
         } = update
             && let Ok(ctype) = AnnotationComponentType::from_str(&component_type)
         {
-            if (ctype == AnnotationComponentType::Dominance
-                || ctype == AnnotationComponentType::Coverage)
-                && component_name.is_empty()
+            if ctype == AnnotationComponentType::Dominance
+                || ctype == AnnotationComponentType::Coverage
             {
                 // might be a new text coverage component
                 let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
-- 
2.43.0


From bfc85dcabf5c6729ec74d15922d59552439c0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:54 +0000
Subject: [PATCH 21/76] fix: avoid arithmetic overflows in the query cost
 estimation

---
 .../src/annis/db/aql/operators/edge_op.rs     | 28 +++++++++----------
 graphannis/src/annis/db/aql/operators/near.rs |  2 +-
 .../src/annis/db/aql/operators/precedence.rs  |  3 +-
 graphannis/src/annis/db/exec/filter.rs        |  8 ++++--
 graphannis/src/annis/db/exec/mod.rs           |  6 ++--
 graphannis/src/annis/db/exec/nestedloop.rs    |  4 +--
 graphannis/src/annis/db/exec/nodesearch.rs    | 17 ++++++-----
 .../src/annis/db/exec/parallel/nestedloop.rs  |  4 +--
 graphannis/src/annis/operator.rs              | 24 ++++++++--------
 9 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index c57eddd..2c91037 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -72,7 +72,7 @@ fn calculate_max_node_estimate(
         // but only the non-roots. We can only use this formula for the actual
         // @* operator, but not the inverted one.
         if !inverse && let Some(stats) = gs[0].get_statistics() {
-            stats.nodes - stats.root_nodes
+            stats.nodes.saturating_sub(stats.root_nodes)
         } else {
             // Fallback to guessing how many nodes have the node type "corpus"
             // or "datasource" and thus could be reachable as RHS in a worst case
@@ -388,7 +388,7 @@ impl BinaryOperatorBase for BaseEdgeOp {
                     } else {
                         std::cmp::min(max_dist, stats.max_depth) as i32
                     };
-                    let min_path_length = std::cmp::max(0, self.spec.dist.min_dist() - 1) as i32;
+                    let min_path_length = self.spec.dist.min_dist().saturating_sub(1) as i32;
 
                     let reachable_max = reachable_by_path_length(stats, max_path_length);
                     let reachable_min = reachable_by_path_length(stats, min_path_length);
@@ -437,13 +437,12 @@ impl BinaryOperatorBase for BaseEdgeOp {
                                 ns.as_ref().map(String::as_str),
                                 name,
                             )?;
-                            total
-                                - anno_storage.guess_max_count(
-                                    ns.as_ref().map(String::as_str),
-                                    name,
-                                    val,
-                                    val,
-                                )?
+                            total.saturating_sub(anno_storage.guess_max_count(
+                                ns.as_ref().map(String::as_str),
+                                name,
+                                val,
+                                val,
+                            )?)
                         }
                         EdgeAnnoSearchSpec::RegexValue { val, ns, name } => anno_storage
                             .guess_max_count_regex(ns.as_ref().map(String::as_str), name, val)?,
@@ -452,12 +451,11 @@ impl BinaryOperatorBase for BaseEdgeOp {
                                 ns.as_ref().map(String::as_str),
                                 name,
                             )?;
-                            total
-                                - anno_storage.guess_max_count_regex(
-                                    ns.as_ref().map(String::as_str),
-                                    name,
-                                    val,
-                                )?
+                            total.saturating_sub(anno_storage.guess_max_count_regex(
+                                ns.as_ref().map(String::as_str),
+                                name,
+                                val,
+                            )?)
                         }
                     };
                     let g_sel: f64 = (guessed_count as f64) / (num_of_annos as f64);
diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 1a80652..c274d5f 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,7 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist - self.spec.dist.min_dist() + 1);
+            let num_of_descendants = 2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 4e35b85..0aec913 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -317,7 +317,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = max_possible_dist - self.spec.dist.min_dist() + 1;
+            let num_of_descendants =
+                max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1;
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 84bd555..ffd4663 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -51,7 +51,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_binary_outputsize(&op_entry.op, orig_cost.output)?,
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
@@ -95,7 +97,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_unary_outputsize(op_entry.op.as_ref(), orig_cost.output),
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
diff --git a/graphannis/src/annis/db/exec/mod.rs b/graphannis/src/annis/db/exec/mod.rs
index fbd1f31..e5822a4 100644
--- a/graphannis/src/annis/db/exec/mod.rs
+++ b/graphannis/src/annis/db/exec/mod.rs
@@ -40,7 +40,7 @@ fn calculate_outputsize<Op: BinaryOperatorBase + ?Sized>(
 ) -> Result<usize> {
     let output = match op.estimation_type()? {
         EstimationType::Selectivity(selectivity) => {
-            let num_tuples = (cost_lhs.output * cost_rhs.output) as f64;
+            let num_tuples = (cost_lhs.output as f64) * (cost_rhs.output as f64);
             if let Some(edge_sel) = op.edge_anno_selectivity()? {
                 (num_tuples * selectivity * edge_sel).round() as usize
             } else {
@@ -121,8 +121,8 @@ impl ExecutionNodeDesc {
                 Some(CostEstimate {
                     output,
                     intermediate_sum: processed_in_step
-                        + cost_lhs.intermediate_sum
-                        + cost_rhs.intermediate_sum,
+                        .saturating_add(cost_lhs.intermediate_sum)
+                        .saturating_add(cost_rhs.intermediate_sum),
                     processed_in_step,
                 })
             } else {
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d4cdcff..d596660 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -41,10 +41,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 1cc9e99..a848ff0 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -641,13 +641,12 @@ impl<'a> NodeSearch<'a> {
                         let total = db
                             .get_node_annos()
                             .number_of_annotations_by_name(qname.0.as_deref(), &qname.1)?;
-                        total
-                            - db.get_node_annos().guess_max_count(
-                                qname.0.as_deref(),
-                                &qname.1,
-                                &val,
-                                &val,
-                            )?
+                        total.saturating_sub(db.get_node_annos().guess_max_count(
+                            qname.0.as_deref(),
+                            &qname.1,
+                            &val,
+                            &val,
+                        )?)
                     }
                     ValueSearch::Any => db
                         .get_node_annos()
@@ -751,7 +750,7 @@ impl<'a> NodeSearch<'a> {
                 // negation (all matches) instead.
                 total
             } else {
-                total - est_for_regex
+                total.saturating_sub(est_for_regex)
             }
         } else {
             db.get_node_annos()
@@ -905,7 +904,7 @@ impl<'a> NodeSearch<'a> {
                         &val,
                     )?
                 };
-                total_count - positive_count
+                total_count.saturating_sub(positive_count)
             }
             ValueSearch::Any => db
                 .get_node_annos()
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index 98d4362..ac6fc72 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -49,10 +49,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index a4a8614..96fc47b 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -90,13 +90,12 @@ impl EdgeAnnoSearchSpec {
             EdgeAnnoSearchSpec::NotExactValue { ns, name, val } => {
                 let total = anno_storage
                     .number_of_annotations_by_name(ns.as_ref().map(String::as_str), name)?;
-                let result = total
-                    - anno_storage.guess_max_count(
-                        ns.as_ref().map(String::as_str),
-                        name,
-                        val,
-                        val,
-                    )?;
+                let result = total.saturating_sub(anno_storage.guess_max_count(
+                    ns.as_ref().map(String::as_str),
+                    name,
+                    val,
+                    val,
+                )?);
                 Ok(result)
             }
             EdgeAnnoSearchSpec::RegexValue { ns, name, val } => Ok(
@@ -105,12 +104,11 @@ impl EdgeAnnoSearchSpec {
             EdgeAnnoSearchSpec::NotRegexValue { ns, name, val } => {
                 let total = anno_storage
                     .number_of_annotations_by_name(ns.as_ref().map(String::as_str), name)?;
-                let result = total
-                    - anno_storage.guess_max_count_regex(
-                        ns.as_ref().map(String::as_str),
-                        name,
-                        val,
-                    )?;
+                let result = total.saturating_sub(anno_storage.guess_max_count_regex(
+                    ns.as_ref().map(String::as_str),
+                    name,
+                    val,
+                )?);
                 Ok(result)
             }
         }
-- 
2.43.0


From 4988b808cac0b111e289fda2774a0d679ff25e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:54 +0000
Subject: [PATCH 22/76] fix: apply output positions of query nodes per query
 alternative

---
 graphannis/src/annis/db/aql/conjunction.rs |  18 ++++
 graphannis/src/annis/db/aql/disjunction.rs |  36 +++----
 graphannis/src/annis/db/aql/mod.rs         |  18 +---
 graphannis/src/annis/db/corpusstorage.rs   | 107 ++++++++++-----------
 graphannis/src/annis/db/plan.rs            |  43 ++++++++-
 5 files changed, 120 insertions(+), 102 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index dd3d0ac..6a91d28 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -394,6 +394,24 @@ impl Conjunction {
         self.include_in_output.contains(variable)
     }
 
+    /// Return for each query node of this conjunction if it is supposed to be
+    /// included in a match output.
+    pub fn nodes_included_in_output(&self) -> Vec<bool> {
+        self.nodes
+            .iter()
+            .map(|n| self.is_included_in_output(&n.var))
+            .collect()
+    }
+
+    /// Return the position of a variable in the output of this conjunction or
+    /// `None` if it is not part of the output.
+    pub fn get_output_pos(&self, variable: &str) -> Option<usize> {
+        self.nodes
+            .iter()
+            .filter(|n| self.is_included_in_output(&n.var))
+            .position(|n| n.var == variable)
+    }
+
     /// Return the variable name for a node number. The node number is the
     /// position of a node description in the query. In case of a query with
     /// multiple alternatives, this refers to the node number of the whole query and
diff --git a/graphannis/src/annis/db/aql/disjunction.rs b/graphannis/src/annis/db/aql/disjunction.rs
index b9613bf..4f1aa00 100644
--- a/graphannis/src/annis/db/aql/disjunction.rs
+++ b/graphannis/src/annis/db/aql/disjunction.rs
@@ -27,32 +27,18 @@ impl Disjunction {
         result
     }
 
-    pub(crate) fn get_variable_pos(&self, variable: &str) -> Option<usize> {
-        for alt in &self.alternatives {
-            if let Ok(var_pos) = alt.resolve_variable_pos(variable, None) {
-                return Some(var_pos);
-            }
-        }
-        None
-    }
-
-    /// Return the variable name for a node number. The node number is the
-    /// position of an AQL query node in the disjunction.
-    pub(crate) fn get_variable_by_node_nr(&self, node_nr: usize) -> Option<String> {
-        for alt in &self.alternatives {
-            if let Some(var) = alt.get_variable_by_node_nr(node_nr) {
-                return Some(var);
-            }
-        }
-        None
+    pub(crate) fn has_variable(&self, variable: &str) -> bool {
+        self.alternatives
+            .iter()
+            .any(|alt| alt.resolve_variable_pos(variable, None).is_ok())
     }
 
-    pub(crate) fn is_included_in_output(&self, variable: &str) -> bool {
-        for alt in &self.alternatives {
-            if alt.is_included_in_output(variable) {
-                return true;
-            }
-        }
-        false
+    /// Return for each alternative the position of a variable in the output of
+    /// this alternative, if it is part of it.
+    pub(crate) fn get_output_pos(&self, variable: &str) -> Vec<Option<usize>> {
+        self.alternatives
+            .iter()
+            .map(|alt| alt.get_output_pos(variable))
+            .collect()
     }
 }
diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index fa8ead0..dfaa29e 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -78,22 +78,8 @@ pub fn execute_query_on_graph<'a>(
     let timeout = TimeoutCheck::new(timeout);
 
     let config = Config { use_parallel_joins };
-    let it = ExecutionPlan::from_disjunction(query, graph, &config, timeout)?
-        .map_ok(|mg| {
-            // Rewrite match group to only include nodes that are included in the query
-            // check if query node actually should be included
-            let mut new_match_group = MatchGroup::with_capacity(mg.len());
-            for (node_nr, m) in mg.into_iter().enumerate() {
-                let include_in_output = query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| query.is_included_in_output(&var));
-                if include_in_output {
-                    new_match_group.push(m);
-                }
-            }
-            new_match_group
-        })
-        .unique_by(move |mg| {
+    let it =
+        ExecutionPlan::from_disjunction(query, graph, &config, timeout)?.unique_by(move |mg| {
             // Map an error to an empty match group
             match mg {
                 Ok(mg) => mg.clone(),
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 840222f..d7df8a3 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1914,60 +1914,52 @@ impl CorpusStorage {
 
             let mut any_nodes_added = false;
 
-            for (node_nr, singlematch) in m.iter().enumerate() {
-                // check if query node actually should be included
-                let include_in_output = prep
-                    .query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| prep.query.is_included_in_output(&var));
-
-                if include_in_output {
-                    if any_nodes_added {
-                        match_desc.push(' ');
-                    }
-                    any_nodes_added = true;
+            for singlematch in m.iter() {
+                if any_nodes_added {
+                    match_desc.push(' ');
+                }
+                any_nodes_added = true;
 
-                    let singlematch_anno_key = &singlematch.anno_key;
-                    if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE
-                    {
-                        if !singlematch_anno_key.ns.is_empty() {
-                            let encoded_anno_ns: Cow<str> =
-                                utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
-                                    .into();
-                            match_desc.push_str(&encoded_anno_ns);
-                            match_desc.push_str("::");
-                        }
-                        let encoded_anno_name: Cow<str> =
-                            utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                let singlematch_anno_key = &singlematch.anno_key;
+                if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE
+                {
+                    if !singlematch_anno_key.ns.is_empty() {
+                        let encoded_anno_ns: Cow<str> =
+                            utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
                                 .into();
-                        match_desc.push_str(&encoded_anno_name);
+                        match_desc.push_str(&encoded_anno_ns);
                         match_desc.push_str("::");
                     }
+                    let encoded_anno_name: Cow<str> =
+                        utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                            .into();
+                    match_desc.push_str(&encoded_anno_name);
+                    match_desc.push_str("::");
+                }
 
-                    if let Some(node_name) = db
-                        .get_node_annos()
-                        .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
-                    {
-                        if quirks_mode {
-                            // Unescape all parts of the name and re-escape with
-                            // quirks-mode compatible character encoding set
-                            let re_encoded_name = node_name
-                                .split('/')
-                                .map(|n| {
-                                    let decoded_name =
-                                        percent_encoding::percent_decode_str(n).decode_utf8_lossy();
-                                    let re_encoded_name: Cow<str> = utf8_percent_encode(
-                                        &decoded_name,
-                                        QUIRKS_SALT_URI_ENCODE_SET,
-                                    )
-                                    .into();
-                                    re_encoded_name.to_string()
-                                })
-                                .join("/");
-                            match_desc.push_str(&re_encoded_name);
-                        } else {
-                            match_desc.push_str(&node_name);
-                        }
+                if let Some(node_name) = db
+                    .get_node_annos()
+                    .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
+                {
+                    if quirks_mode {
+                        // Unescape all parts of the name and re-escape with
+                        // quirks-mode compatible character encoding set
+                        let re_encoded_name = node_name
+                            .split('/')
+                            .map(|n| {
+                                let decoded_name =
+                                    percent_encoding::percent_decode_str(n).decode_utf8_lossy();
+                                let re_encoded_name: Cow<str> = utf8_percent_encode(
+                                    &decoded_name,
+                                    QUIRKS_SALT_URI_ENCODE_SET,
+                                )
+                                .into();
+                                re_encoded_name.to_string()
+                            })
+                            .join("/");
+                        match_desc.push_str(&re_encoded_name);
+                    } else {
+                        match_desc.push_str(&node_name);
                     }
                 }
             }
@@ -2288,10 +2280,12 @@ impl CorpusStorage {
             let lock = prep.db_entry.read()?;
             let db: &AnnotationGraph = get_read_or_error(&lock)?;
 
-            // get the matching annotation keys for each definition entry
-            let mut annokeys: Vec<(usize, Vec<AnnoKey>)> = Vec::default();
+            // get the matching annotation keys for each definition entry and the
+            // position of the referenced query node in the output of each alternative
+            let mut annokeys: Vec<(Vec<Option<usize>>, Vec<AnnoKey>)> = Vec::default();
             for def in definition.iter() {
-                if let Some(node_ref) = prep.query.get_variable_pos(&def.node_ref) {
+                let node_ref = prep.query.get_output_pos(&def.node_ref);
+                if prep.query.has_variable(&def.node_ref) {
                     if let Some(ns) = &def.ns {
                         // add the single fully qualified annotation key
                         annokeys.push((
@@ -2308,19 +2302,20 @@ impl CorpusStorage {
                 }
             }
 
-            let plan =
+            let mut plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
             let mut total_count: u64 = 0;
 
-            for mgroup in plan {
+            while let Some(mgroup) = plan.next() {
                 let mgroup = mgroup?;
+                let alternative = plan.current_alternative().unwrap_or(0);
 
                 // for each match, extract the defined annotation (by its key) from the result node
                 let mut tuple: Vec<String> = Vec::with_capacity(annokeys.len());
                 for (node_ref, anno_keys) in &annokeys {
                     let mut tuple_val: String = String::default();
-                    if *node_ref < mgroup.len() {
-                        let m: &Match = &mgroup[*node_ref];
+                    let node_ref = node_ref.get(alternative).copied().flatten();
+                    if let Some(m) = node_ref.and_then(|node_ref| mgroup.get(node_ref)) {
                         for k in anno_keys.iter() {
                             if let Some(val) = db.get_node_annos().get_value_for_item(&m.node, k)? {
                                 tuple_val = val.to_string();
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 00d58c9..4699747 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -19,6 +19,10 @@ pub struct ExecutionPlan<'a> {
     current_plan: usize,
     descriptions: Vec<Option<ExecutionNodeDesc>>,
     inverse_node_pos: Vec<Option<Vec<usize>>>,
+    /// For each plan, the position of the query alternative it was created from.
+    alternatives: Vec<usize>,
+    /// For each plan and query node, whether the node is part of the output.
+    included_in_output: Vec<Vec<bool>>,
     proxy_mode: bool,
     unique_result_set: BtreeIndex<Vec<(NodeID, usize)>, bool>,
     anno_key_symbols: SymbolTable<AnnoKey>,
@@ -34,9 +38,13 @@ impl<'a> ExecutionPlan<'a> {
         let mut plans: Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>> = Vec::new();
         let mut descriptions = Vec::new();
         let mut inverse_node_pos = Vec::new();
-        for alt in &query.alternatives {
+        let mut alternatives = Vec::new();
+        let mut included_in_output = Vec::new();
+        for (alt_idx, alt) in query.alternatives.iter().enumerate() {
             let p = alt.make_exec_node(db, config, timeout);
             if let Ok(p) = p {
+                alternatives.push(alt_idx);
+                included_in_output.push(alt.nodes_included_in_output());
                 descriptions.push(p.get_desc().cloned());
 
                 if let Some(desc) = p.get_desc() {
@@ -84,6 +92,8 @@ impl<'a> ExecutionPlan<'a> {
             current_plan: 0,
             descriptions,
             inverse_node_pos,
+            alternatives,
+            included_in_output,
             proxy_mode: plans.len() == 1,
             plans,
             unique_result_set: BtreeIndex::with_capacity(btree_config, 10_000)?,
@@ -91,6 +101,29 @@ impl<'a> ExecutionPlan<'a> {
         })
     }
 
+    /// Position of the query alternative that produced the last returned match.
+    pub fn current_alternative(&self) -> Option<usize> {
+        self.alternatives.get(self.current_plan).copied()
+    }
+
+    /// Re-orders the match vector from the top execution node to match the
+    /// requested query node order and removes all query nodes that are not part
+    /// of the output (e.g. optional nodes).
+    fn create_output(&self, tmp: MatchGroup) -> MatchGroup {
+        let mut result = self.reorder_match(tmp);
+        if let Some(included) = self.included_in_output.get(self.current_plan)
+            && included.iter().any(|i| !i)
+        {
+            let mut node_nr = 0;
+            result.retain(|_| {
+                let keep = included.get(node_nr).copied().unwrap_or(false);
+                node_nr += 1;
+                keep
+            });
+        }
+        result
+    }
+
     /// Re-orders the match vector from the top execution node to match the
     /// requested query node order. If query nodes are not part of the result,
     /// they are still included in the vector but you can not use the node ID at
@@ -118,10 +151,10 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     pub fn estimated_output_size(&self) -> usize {
-        let mut estimation = 0;
+        let mut estimation: usize = 0;
         for desc in self.descriptions.iter().flatten() {
             if let Some(cost) = &desc.cost {
-                estimation += cost.output;
+                estimation = estimation.saturating_add(cost.output);
             }
         }
         estimation
@@ -171,13 +204,13 @@ impl Iterator for ExecutionPlan<'_> {
             // just act as an proxy, but make sure the order is the same as requested in the query
             self.plans[0]
                 .next()
-                .map(|n| n.map(|n| self.reorder_match(n)))
+                .map(|n| n.map(|n| self.create_output(n)))
         } else {
             while self.current_plan < self.plans.len() {
                 if let Some(n) = self.plans[self.current_plan].next() {
                     match n {
                         Ok(n) => {
-                            let n = self.reorder_match(n);
+                            let n = self.create_output(n);
 
                             // check if we already outputted this result
                             match self.insert_into_unique_result_set(&n) {
-- 
2.43.0


From 15219c01d216de37256f331d6274a808c7282476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 23/76] fix: find tokens which are not part of the ordering
 component

---
 graphannis/src/annis/db/exec/tokensearch.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/exec/tokensearch.rs b/graphannis/src/annis/db/exec/tokensearch.rs
index 0c93acb..1458540 100644
--- a/graphannis/src/annis/db/exec/tokensearch.rs
+++ b/graphannis/src/annis/db/exec/tokensearch.rs
@@ -138,11 +138,13 @@ impl<'a> AnyTokenSearch<'a> {
         // for root nodes add an iterator for all reachable nodes in the order component
         let mut root_iterators: Vec<Box<dyn Iterator<Item = Result<u64>>>> = Vec::new();
         for root in root_nodes {
-            let it = if let Some(order_gs) = self.order_gs {
-                order_gs.find_connected(root.node, 0, std::ops::Bound::Unbounded)
-            } else {
-                // there is only the the root token and no ordering component
-                Box::from(vec![Ok(root.node)].into_iter())
+            // the root token itself might not be part of the ordering component
+            let it = match self.order_gs {
+                Some(order_gs) if order_gs.has_outgoing_edges(root.node)? => {
+                    order_gs.find_connected(root.node, 0, std::ops::Bound::Unbounded)
+                }
+                // there is only the the root token
+                _ => Box::from(vec![Ok(root.node)].into_iter()),
             };
             root_iterators.push(Box::new(it.map(|it| it.map_err(|e| e.into()))));
         }
-- 
2.43.0


From 3ff3bc13a01a87e13425271e4b99b6a8d463d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 24/76] fix: correctly detect tokens outside of the ordering
 component in statistics

---
 graphannis/src/annis/db/aql/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 24b4d59..481c2db 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -674,8 +674,8 @@ impl ComponentType for AnnotationComponentType {
 
                 if !token_helper.has_outgoing_coverage_edges(n)? {
                     all_token_in_order_component = all_token_in_order_component
-                        && ordering_gs.has_outgoing_edges(n)?
-                        || ordering_gs.has_ingoing_edges(n)?;
+                        && (ordering_gs.has_outgoing_edges(n)?
+                            || ordering_gs.has_ingoing_edges(n)?);
                     // Update the token counter
                     base_token_count += 1;
                 }
-- 
2.43.0


From b25bf04c3f340bb0f9cdb706b343a9ffcea6efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 25/76] fix: treat a token as connected to itself in overlap
 and inclusion operators

---
 .../src/annis/db/aql/operators/inclusion.rs   | 54 ++++++++++++++-----
 .../src/annis/db/aql/operators/overlap.rs     |  6 ++-
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/inclusion.rs b/graphannis/src/annis/db/aql/operators/inclusion.rs
index fb6a2cd..3bb65c2 100644
--- a/graphannis/src/annis/db/aql/operators/inclusion.rs
+++ b/graphannis/src/annis/db/aql/operators/inclusion.rs
@@ -92,6 +92,39 @@ impl std::fmt::Display for Inclusion<'_> {
     }
 }
 
+impl Inclusion<'_> {
+    /// Distance between two token in the ordering component. A token always has
+    /// the distance 0 to itself, even if it is not part of the component.
+    fn token_distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
+        if source == target {
+            Ok(Some(0))
+        } else {
+            Ok(self.gs_order.distance(source, target)?)
+        }
+    }
+
+    /// Check if two token are the same or connected with the maximum distance.
+    fn is_token_connected(
+        &self,
+        source: NodeID,
+        target: NodeID,
+        max_distance: usize,
+    ) -> Result<bool> {
+        if source == target {
+            Ok(true)
+        } else if max_distance == 0 {
+            Ok(false)
+        } else {
+            Ok(self.gs_order.is_connected(
+                source,
+                target,
+                1,
+                std::ops::Bound::Included(max_distance),
+            )?)
+        }
+    }
+}
+
 impl BinaryOperatorBase for Inclusion<'_> {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
         let left_right_lhs = self.tok_helper.left_right_token_for(lhs.node)?;
@@ -103,11 +136,11 @@ impl BinaryOperatorBase for Inclusion<'_> {
             left_right_rhs.1,
         ) {
             // span length of LHS
-            if let Some(l) = self.gs_order.distance(start_lhs, end_lhs)? {
+            if let Some(l) = self.token_distance(start_lhs, end_lhs)? {
                 // path between left-most tokens exists in ORDERING component and has maximum length l
-                if self.gs_order.is_connected(start_lhs, start_rhs, 0, std::ops::Bound::Included(l))?
+                if self.is_token_connected(start_lhs, start_rhs, l)?
                 // path between right-most tokens exists in ORDERING component and has maximum length l
-                && self.gs_order.is_connected(end_rhs, end_lhs, 0, std::ops::Bound::Included(l))?
+                && self.is_token_connected(end_rhs, end_lhs, l)?
                 {
                     return Ok(true);
                 }
@@ -165,12 +198,14 @@ impl BinaryOperatorIndex for Inclusion<'_> {
         let left_right_token = try_as_boxed_iter!(self.tok_helper.left_right_token_for(lhs.node));
         if let (Some(start_lhs), Some(end_lhs)) = left_right_token {
             // span length of LHS
-            let l = try_as_boxed_iter!(self.gs_order.distance(start_lhs, end_lhs));
+            let l = try_as_boxed_iter!(self.token_distance(start_lhs, end_lhs));
             if let Some(l) = l {
                 // find each token which is between the left and right border
-                let overlapped_token =
+                let overlapped_token = std::iter::once(Ok(start_lhs)).chain(
                     self.gs_order
-                        .find_connected(start_lhs, 0, std::ops::Bound::Included(l));
+                        .find_connected(start_lhs, 1, std::ops::Bound::Included(l))
+                        .take_while(move |_| l > 0),
+                );
                 // get the nodes that are covering these overlapped tokens
                 let candidates = overlapped_token
                     .map_ok(move |t| {
@@ -203,12 +238,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
                                     self.tok_helper.get_gs_right_token().get_outgoing_edges(n);
                                 if let Some(end_n) = end_n.next() {
                                     let end_n = end_n?;
-                                    if self.gs_order.is_connected(
-                                        end_n,
-                                        end_lhs,
-                                        0,
-                                        std::ops::Bound::Included(l),
-                                    )? {
+                                    if self.is_token_connected(end_n, end_lhs, l)? {
                                         // path between right-most tokens exists in ORDERING component
                                         // and has maximum length l
                                         return Ok(Some(n));
diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 5bdf5ec..4375840 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -111,9 +111,11 @@ impl BinaryOperatorBase for Overlap<'_> {
         ) {
             // TODO: why not isConnected()? (instead of distance)
             // path between LHS left-most token and RHS right-most token exists in ORDERING component
-            if self.gs_order.distance(start_lhs, end_rhs)?.is_some()
+            // (or both are the same token, which might not be part of the component at all)
+            if (start_lhs == end_rhs || self.gs_order.distance(start_lhs, end_rhs)?.is_some())
                 // path between LHS left-most token and RHS right-most token exists in ORDERING component
-                && self.gs_order.distance(start_rhs, end_lhs)?.is_some()
+                && (start_rhs == end_lhs
+                    || self.gs_order.distance(start_rhs, end_lhs)?.is_some())
             {
                 return Ok(true);
             }
-- 
2.43.0


From 135fe30388250bccea08235c7df69cbb55eb5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 26/76] fix: only replace node searches by component searches
 when the operator allows it

---
 graphannis/src/annis/db/aql/conjunction.rs       |  4 +++-
 graphannis/src/annis/db/aql/operators/edge_op.rs | 12 ++++++++++++
 graphannis/src/annis/db/exec/nodesearch.rs       | 16 ++++++++++++++++
 graphannis/src/annis/operator.rs                 |  6 ++++++
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 6a91d28..44d11bb 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -579,7 +579,9 @@ impl Conjunction {
             if let Some(node_search_cost) = desc.cost.as_ref() {
                 for e in op_spec_entries {
                     let op_spec = &e.op;
-                    if e.args.left - self.var_idx_offset == desc.component_nr {
+                    if op_spec.lhs_is_source_node()
+                        && e.args.left - self.var_idx_offset == desc.component_nr
+                    {
                         // get the necessary components and count the number of nodes in these components
                         let components = op_spec.necessary_components(db);
                         if !components.is_empty() {
diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index 2c91037..cdc9964 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -652,6 +652,10 @@ impl BinaryOperatorSpec for DominanceSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -704,6 +708,10 @@ impl BinaryOperatorSpec for PointingSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -764,6 +772,10 @@ impl BinaryOperatorSpec for PartOfSubCorpusSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index a848ff0..f27d00d 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -21,6 +21,7 @@ use graphannis_core::{
     types::{Component, NodeID},
 };
 use itertools::Itertools;
+use rustc_hash::FxHashSet;
 use smallvec::smallvec;
 use std::collections::{HashMap, HashSet};
 use std::fmt;
@@ -995,6 +996,8 @@ impl<'a> NodeSearch<'a> {
     ) -> Result<NodeSearch<'a>> {
         let node_search_desc_1 = node_search_desc.clone();
         let node_search_desc_2 = node_search_desc.clone();
+        // a node can be the source of several edges or part of several components
+        let mut visited: FxHashSet<NodeID> = FxHashSet::default();
 
         let it = components
             .into_iter()
@@ -1029,6 +1032,10 @@ impl<'a> NodeSearch<'a> {
                     }
                 },
             )
+            .filter(move |node| match node {
+                Ok(node) => visited.insert(*node),
+                Err(_) => true,
+            })
             .map(move |node| {
                 match node {
                     Ok(node) => {
@@ -1056,6 +1063,15 @@ impl<'a> NodeSearch<'a> {
                             return Ok(None);
                         }
                     }
+                    // use the same annotation key in the output as the original node search
+                    let anno_key = match &node_search_desc_2.const_output {
+                        Some(const_output) => const_output.clone(),
+                        None => m.anno_key,
+                    };
+                    let m = Match {
+                        node: m.node,
+                        anno_key,
+                    };
                     Ok(Some(smallvec![m]))
                 }
                 Err(e) => Err(GraphAnnisError::from(e)),
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index 96fc47b..72d2ffc 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -236,6 +236,12 @@ pub trait BinaryOperatorSpec: std::fmt::Debug + Send + Sync {
         true
     }
 
+    /// If true, the left-hand-side of a match always is the source node of an
+    /// edge in one of the necessary components.
+    fn lhs_is_source_node(&self) -> bool {
+        false
+    }
+
     #[cfg(test)]
     fn into_any(self: std::sync::Arc<Self>) -> std::sync::Arc<dyn std::any::Any>;
 
-- 
2.43.0


From 57e26a026aa4a78ce4cb470b1adf2742de44885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 27/76] fix: check annotation values when joining with the
 value comparison operators

---
 .../src/annis/db/aql/operators/equal_value.rs | 21 ++++++++++++++++---
 graphannis/src/annis/db/exec/indexjoin.rs     | 10 +++++++++
 .../src/annis/db/exec/parallel/indexjoin.rs   | 19 +++++++++++++++++
 graphannis/src/annis/operator.rs              |  6 ++++++
 4 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 77e5920..0d8d616 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -10,7 +10,12 @@ use crate::{
     graph::Match,
 };
 use graphannis_core::annostorage::NodeAnnotationStorage;
-use graphannis_core::{annostorage::ValueSearch, graph::ANNIS_NS, types::Component};
+use graphannis_core::{
+    annostorage::ValueSearch,
+    graph::ANNIS_NS,
+    types::{Component, NodeID},
+};
+use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::HashSet;
 
@@ -136,6 +141,10 @@ impl BinaryOperatorBase for EqualValue<'_> {
         Ok(result)
     }
 
+    fn depends_on_annotation(&self) -> bool {
+        true
+    }
+
     fn estimation_type(&self) -> Result<EstimationType> {
         if let Some((ns, name)) = EqualValue::anno_def_for_spec(&self.spec_left)
             && let Some(most_frequent_value_left) =
@@ -167,8 +176,8 @@ impl BinaryOperatorBase for EqualValue<'_> {
     ) -> Result<Option<BinaryOperator<'b>>> {
         let inverse = BinaryOperator::Index(Box::from(EqualValue {
             node_annos: graph.get_node_annos(),
-            spec_left: self.spec_left.clone(),
-            spec_right: self.spec_right.clone(),
+            spec_left: self.spec_right.clone(),
+            spec_right: self.spec_left.clone(),
             negated: self.negated,
         }));
         Ok(Some(inverse))
@@ -187,9 +196,15 @@ impl BinaryOperatorIndex for EqualValue<'_> {
             };
 
             if let Some((ns, name)) = EqualValue::anno_def_for_spec(&self.spec_right) {
+                // the same node can have several matching annotations
+                let mut visited: FxHashSet<NodeID> = FxHashSet::default();
                 let rhs_candidates = self
                     .node_annos
                     .exact_anno_search(ns, name, val_search)
+                    .filter(move |m| match m {
+                        Ok(m) => visited.insert(m.node),
+                        Err(_) => true,
+                    })
                     .map(|m| m.map_err(|e| e.into()));
                 return Box::new(rhs_candidates);
             }
diff --git a/graphannis/src/annis/db/exec/indexjoin.rs b/graphannis/src/annis/db/exec/indexjoin.rs
index f9d9e4f..d7b0c65 100644
--- a/graphannis/src/annis/db/exec/indexjoin.rs
+++ b/graphannis/src/annis/db/exec/indexjoin.rs
@@ -145,6 +145,16 @@ impl Iterator for IndexJoin<'_> {
                         }
                     }
 
+                    // the candidates have been found by their node, thus check if the
+                    // operator also applies to the actual annotation
+                    if filter_result && self.op.depends_on_annotation() {
+                        filter_result = try_as_option!(
+                            self.op
+                                .as_binary_operator()
+                                .filter_match(&m_lhs[self.lhs_idx], &m_rhs)
+                        );
+                    }
+
                     if filter_result {
                         // replace the annotation with a constant value if needed
                         if let Some(ref const_anno) = self.node_search_desc.const_output {
diff --git a/graphannis/src/annis/db/exec/parallel/indexjoin.rs b/graphannis/src/annis/db/exec/parallel/indexjoin.rs
index afc28c3..6b4c5fa 100644
--- a/graphannis/src/annis/db/exec/parallel/indexjoin.rs
+++ b/graphannis/src/annis/db/exec/parallel/indexjoin.rs
@@ -149,6 +149,25 @@ impl<'a> IndexJoin<'a> {
                                     };
                                 }
 
+                                // the candidates have been found by their node, thus check if the
+                                // operator also applies to the actual annotation
+                                if include_match && op.depends_on_annotation() {
+                                    match op
+                                        .as_binary_operator()
+                                        .filter_match(&m_lhs[lhs_idx], &m_rhs)
+                                    {
+                                        Ok(filter_result) => include_match = filter_result,
+                                        Err(e) => {
+                                            include_match = false;
+                                            if let Err(e) = tx.send(Err(e)) {
+                                                trace!(
+                                                    "Could not send error in parallel index join {}", e
+                                                );
+                                            }
+                                        }
+                                    }
+                                }
+
                                 if include_match {
                                     // replace the annotation with a constant value if needed
                                     if let Some(ref const_anno) = node_search_desc.const_output {
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index 72d2ffc..1464ab9 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -132,6 +132,12 @@ pub trait BinaryOperatorBase: std::fmt::Display + Send + Sync {
         true
     }
 
+    /// If true, the operator depends on the matched annotation and not only on
+    /// the node itself.
+    fn depends_on_annotation(&self) -> bool {
+        false
+    }
+
     fn get_inverse_operator<'a>(
         &self,
         _graph: &'a AnnotationGraph,
-- 
2.43.0


From b940f0cb4b33d62b766a810c03e029a5ea324a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 28/76] fix: limit the space reserved for sorting the matches,
 the estimated number can be arbitrarily large

---
 graphannis/src/annis/db/corpusstorage.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index d7df8a3..303e92e 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -72,6 +72,9 @@ mod tests;
 /// After how many produces tuples the timeout check should be manually triggered (in case the underlying joint did not already check the timeout)
 const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 
+/// Maximum number of matches for which space is reserved in advance when sorting the results.
+const MAX_INITIAL_SORT_CAPACITY: usize = 100_000;
+
 enum CacheEntry {
     Loaded(AnnotationGraph),
     NotLoaded,
@@ -1742,8 +1745,12 @@ impl CorpusStorage {
                 .fixed_key_size(size_of::<usize>())
                 .max_value_size(512);
             let mut anno_key_symbols: SymbolTable<AnnoKey> = SymbolTable::new();
+            // The estimation can be arbitrarily wrong: limit the initially reserved space, the index grows if needed
             let mut tmp_results: BtreeIndex<usize, Vec<(NodeID, usize)>> =
-                BtreeIndex::with_capacity(btree_config, estimated_result_size)?;
+                BtreeIndex::with_capacity(
+                    btree_config,
+                    estimated_result_size.min(MAX_INITIAL_SORT_CAPACITY),
+                )?;
 
             if find_arguments.order == ResultOrder::Randomized {
                 // Use a unique random index for each match to force a random order
-- 
2.43.0


From 60dc2057601ef2345b2e186b5e3d1d9301666fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 29/76] fix: never have two loaded instances of the same
 corpus, also when unloading, evicting, deleting or importing while it is in
 use

---
 graphannis/src/annis/db/corpusstorage.rs | 69 ++++++++++++++++--------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 303e92e..636d35f 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -703,12 +703,42 @@ impl CorpusStorage {
             Ok(cache_entry)
         } else {
             let mut cache_lock = self.corpus_cache.write()?;
-            self.load_entry_with_lock(
+            // Another thread might have loaded the corpus in the meantime: there must
+            // never be two loaded instances of the same corpus.
+            if let Some(entry) = cache_lock.get(corpus_name)
+                && matches!(&*entry.read()?, CacheEntry::Loaded(_))
+            {
+                return Ok(entry.clone());
+            }
+            let result = self.load_entry_with_lock(
                 &mut cache_lock,
                 corpus_name,
                 create_if_missing,
                 create_disk_based,
-            )
+            );
+            if result.is_err() {
+                // Do not remember entries for corpora that do not exist
+                cache_lock.remove(corpus_name);
+            }
+            result
+        }
+    }
+
+    /// Get exclusive access to the corpus cache when the given corpus is not in use.
+    ///
+    /// This waits until all queries, updates and background writers which still use the corpus are finished.
+    /// Without waiting, there could be two instances of the same corpus using the same files.
+    fn lock_cache_with_unused_corpus(
+        &self,
+        corpus_name: &str,
+    ) -> Result<RwLockWriteGuard<'_, LinkedHashMap<String, Arc<RwLock<CacheEntry>>>>> {
+        loop {
+            let cache_lock = self.corpus_cache.write()?;
+            if !cache_lock.get(corpus_name).is_some_and(is_used_entry) {
+                return Ok(cache_lock);
+            }
+            std::mem::drop(cache_lock);
+            thread::sleep(Duration::from_millis(1));
         }
     }
 
@@ -988,7 +1018,7 @@ impl CorpusStorage {
         let corpus_name = corpus_name.unwrap_or(orig_name);
         let db_path = self.corpus_directory_on_disk(&corpus_name);
 
-        let mut cache_lock = self.corpus_cache.write()?;
+        let mut cache_lock = self.lock_cache_with_unused_corpus(&corpus_name)?;
         let cache = &mut *cache_lock;
 
         // make sure the cache is not too large before adding the new corpus
@@ -996,14 +1026,7 @@ impl CorpusStorage {
 
         // remove any possible old corpus
         if overwrite_existing {
-            let old_entry = cache.remove(&corpus_name);
-
-            // if there is a cache entry, acquire an exclusive lock for it because
-            // other queries or background writers might still have access to it and need to finish first
-            let _lock = old_entry
-                .as_ref()
-                .map(|db_entry| db_entry.write())
-                .transpose()?;
+            cache.remove(&corpus_name);
 
             if db_path.is_dir()
                 && let Err(e) = std::fs::remove_dir_all(&db_path)
@@ -1364,18 +1387,12 @@ impl CorpusStorage {
     pub fn delete(&self, corpus_name: &str) -> Result<bool> {
         let db_path = self.corpus_directory_on_disk(corpus_name);
 
-        let mut cache_lock = self.corpus_cache.write()?;
+        // other queries or background writers might still have access to the corpus and need to finish first
+        let mut cache_lock = self.lock_cache_with_unused_corpus(corpus_name)?;
         let cache = &mut *cache_lock;
 
         let db_entry = cache.remove(corpus_name);
 
-        // if there is a cache entry, acquire an exclusive lock for it because
-        // other queries or background writers might still have access to it and need to finish first
-        let _lock = db_entry
-            .as_ref()
-            .map(|db_entry| db_entry.write())
-            .transpose()?;
-
         if db_path.is_dir() {
             std::fs::remove_dir_all(db_path).map_err(|e| {
                 CorpusStorageError::RemoveFileForCorpus {
@@ -1509,7 +1526,8 @@ impl CorpusStorage {
 
     /// Unloads a corpus from the cache.
     pub fn unload(&self, corpus_name: &str) -> Result<()> {
-        let mut cache_lock = self.corpus_cache.write()?;
+        // wait until other queries or background writers are finished
+        let mut cache_lock = self.lock_cache_with_unused_corpus(corpus_name)?;
         let cache = &mut *cache_lock;
         cache.remove(corpus_name);
         Ok(())
@@ -2600,6 +2618,11 @@ impl Drop for CorpusStorage {
     }
 }
 
+/// Returns true if the cache entry is currently used outside of the cache.
+fn is_used_entry(entry: &Arc<RwLock<CacheEntry>>) -> bool {
+    Arc::strong_count(entry) > 1
+}
+
 fn get_read_or_error<'a>(lock: &'a RwLockReadGuard<CacheEntry>) -> Result<&'a AnnotationGraph> {
     if let CacheEntry::Loaded(db) = &**lock {
         Ok(db)
@@ -2655,7 +2678,11 @@ fn check_cache_size_and_remove_with_cache(
     let all_corpus_names: Vec<String> = cache.keys().cloned().collect();
     let mut removed = false;
     for corpus_name in all_corpus_names {
-        let corpus_is_loaded = if let Some(cache_entry) = cache.get(&corpus_name) {
+        // Corpora that are still in use (e.g. by a background writer) must not be removed: loading
+        // them again would create a second instance which uses the same files.
+        let corpus_is_loaded = if let Some(cache_entry) = cache.get(&corpus_name)
+            && !is_used_entry(cache_entry)
+        {
             matches!(*cache_entry.read()?, CacheEntry::Loaded(_))
         } else {
             false
-- 
2.43.0


From 33daa57d78f644d70456ba0a4f05efd73d1a9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 30/76] fix: results must not depend on the join order, check
 for nodes that must be different after the joins

---
 graphannis/src/annis/db/aql/conjunction.rs | 88 +++++++++++++++++++++-
 graphannis/src/annis/db/exec/filter.rs     | 25 ++++++
 2 files changed, 109 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 44d11bb..85e8eeb 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -25,7 +25,7 @@ use graphannis_core::annostorage::EdgeAnnotationStorage;
 use graphannis_core::{annostorage::MatchGroup, graph::storage::GraphStatistic, types::Component};
 use rand::distr::Uniform;
 use rand::prelude::*;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::sync::Arc;
 
 #[derive(Debug)]
@@ -102,6 +102,16 @@ struct ExecutionPlanHelper {
     /// Cost estimates for different nodes of the query. The node is determined
     /// by the position of the variable in the conjunction.
     node2cost: BTreeMap<usize, CostEstimate>,
+    joined_operands: Vec<JoinedOperands>,
+}
+
+/// Operands of an operator with their positions in the conjunction.
+struct JoinedOperands {
+    left: usize,
+    right: usize,
+    reflexive: bool,
+    binding: bool,
+    global_reflexivity: bool,
 }
 
 struct AddNodeToExecutionPlanOutput<'a> {
@@ -774,10 +784,20 @@ impl Conjunction {
             args: BinaryOperatorArguments {
                 left: spec_idx_left + 1,
                 right: spec_idx_right + 1,
-                global_reflexivity: op_spec_entry.args.global_reflexivity,
+                // The join order must not have an influence on the result. Thus, only the
+                // operands are compared in the join and all other nodes are checked later.
+                global_reflexivity: false,
             },
         };
 
+        helper.joined_operands.push(JoinedOperands {
+            left: spec_idx_left,
+            right: spec_idx_right,
+            reflexive: op_entry.op.is_reflexive(),
+            binding: op_spec_entry.op.is_binding(),
+            global_reflexivity: op_spec_entry.args.global_reflexivity,
+        });
+
         let component_left: usize = *(helper
             .node2component
             .get(&spec_idx_left)
@@ -856,6 +876,7 @@ impl Conjunction {
         let helper = ExecutionPlanHelper {
             node2component: BTreeMap::new(),
             node2cost: BTreeMap::new(),
+            joined_operands: Vec::new(),
         };
 
         let mut output = AddNodeToExecutionPlanOutput {
@@ -907,11 +928,70 @@ impl Conjunction {
         }
 
         // it must be checked before that all components are connected
-        output.component2exec.into_values().next().ok_or_else(|| {
+        let exec = output.component2exec.into_values().next().ok_or_else(|| {
             GraphAnnisError::ImpossibleSearch(String::from(
                 "could not find execution node for query component",
             ))
-        })
+        })?;
+
+        // 4. make sure that nodes which must not be the same are different
+        let mut different_positions = Vec::new();
+        for (a, b) in self.different_nodes(&output.helper.joined_operands) {
+            let node_pos = &exec
+                .get_desc()
+                .ok_or(GraphAnnisError::PlanDescriptionMissing)?
+                .node_pos;
+            if let (Some(a), Some(b)) = (node_pos.get(&a), node_pos.get(&b)) {
+                different_positions.push((*a, *b));
+            }
+        }
+        if different_positions.is_empty() {
+            Ok(exec)
+        } else {
+            Ok(Box::new(Filter::new_different(exec, different_positions)))
+        }
+    }
+
+    /// Get the pairs of nodes which must not be the same annotation in a match.
+    ///
+    /// The operands of non-reflexive operators must be different. In addition, nodes that are only
+    /// connected with each other by non-reflexive operators must be different as well.
+    fn different_nodes(&self, joined_operands: &[JoinedOperands]) -> BTreeSet<(usize, usize)> {
+        let mut result = BTreeSet::new();
+        if joined_operands
+            .iter()
+            .all(|j| j.reflexive || !j.global_reflexivity)
+        {
+            return result;
+        }
+
+        // Nodes with a connection by reflexive operators get the same group
+        let mut groups: Vec<usize> = (0..self.nodes.len()).collect();
+        for j in joined_operands {
+            if j.reflexive && j.binding {
+                let (left, right) = (groups[j.left], groups[j.right]);
+                for g in groups.iter_mut() {
+                    if *g == left {
+                        *g = right;
+                    }
+                }
+            }
+        }
+        for a in 0..self.nodes.len() {
+            for b in (a + 1)..self.nodes.len() {
+                if groups[a] != groups[b] {
+                    result.insert((a, b));
+                }
+            }
+        }
+        for j in joined_operands.iter().filter(|j| !j.reflexive) {
+            result.insert((j.left.min(j.right), j.left.max(j.right)));
+        }
+        if joined_operands.len() == 1 {
+            // the operands have already been compared in the join
+            result.clear();
+        }
+        result
     }
 
     fn check_components_connected(&self) -> Result<()> {
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index ffd4663..cf7aa59 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -87,6 +87,31 @@ impl<'a> Filter<'a> {
         })
     }
 
+    /// Create a filter which only includes tuples where the matches of all the given pairs of positions are different.
+    pub fn new_different(
+        exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
+        pairs: Vec<(usize, usize)>,
+    ) -> Filter<'a> {
+        let desc = exec.get_desc().map(|orig_desc| ExecutionNodeDesc {
+            component_nr: orig_desc.component_nr,
+            node_pos: orig_desc.node_pos.clone(),
+            impl_description: String::from("filter"),
+            query_fragment: String::from("different nodes"),
+            cost: orig_desc.cost.clone(),
+            lhs: Some(Box::new(orig_desc.clone())),
+            rhs: None,
+        });
+        let it = exec.filter_ok(move |tuple| {
+            pairs
+                .iter()
+                .all(|(a, b)| tuple[*a].different_to(&tuple[*b]))
+        });
+        Filter {
+            desc,
+            it: Box::new(it),
+        }
+    }
+
     pub fn new_unary(
         exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         idx: usize,
-- 
2.43.0


From 079e7a0e1e05679fae0c988564779905b6368e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 31/76] fix: the overlap operator and local reflexivity checks
 must not depend on the chosen join (shared token for discontinuous coverage)

---
 graphannis/src/annis/db/aql/conjunction.rs    | 21 ++++++++-------
 .../src/annis/db/aql/operators/overlap.rs     | 27 +++++++++++++++++--
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 85e8eeb..8e7601e 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -955,13 +955,11 @@ impl Conjunction {
     /// Get the pairs of nodes which must not be the same annotation in a match.
     ///
     /// The operands of non-reflexive operators must be different. In addition, nodes that are only
-    /// connected with each other by non-reflexive operators must be different as well.
+    /// connected with each other by non-reflexive operators must be different as well, if this
+    /// is checked globally.
     fn different_nodes(&self, joined_operands: &[JoinedOperands]) -> BTreeSet<(usize, usize)> {
         let mut result = BTreeSet::new();
-        if joined_operands
-            .iter()
-            .all(|j| j.reflexive || !j.global_reflexivity)
-        {
+        if joined_operands.iter().all(|j| j.reflexive) {
             return result;
         }
 
@@ -977,10 +975,15 @@ impl Conjunction {
                 }
             }
         }
-        for a in 0..self.nodes.len() {
-            for b in (a + 1)..self.nodes.len() {
-                if groups[a] != groups[b] {
-                    result.insert((a, b));
+        if joined_operands
+            .iter()
+            .any(|j| !j.reflexive && j.global_reflexivity)
+        {
+            for a in 0..self.nodes.len() {
+                for b in (a + 1)..self.nodes.len() {
+                    if groups[a] != groups[b] {
+                        result.insert((a, b));
+                    }
                 }
             }
         }
diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 4375840..9dcfcec 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -85,6 +85,27 @@ impl<'a> Overlap<'a> {
             reflexive,
         })
     }
+
+    /// Return all token which are covered by the given node (the node itself if it is a token).
+    fn covered_token(&self, node: NodeID) -> Result<FxHashSet<NodeID>> {
+        let mut result = FxHashSet::default();
+        if self.tok_helper.is_token(node)? {
+            result.insert(node);
+        } else {
+            for gs_cov in self.tok_helper.get_gs_coverage().iter() {
+                for t in gs_cov.get_outgoing_edges(node) {
+                    result.insert(t?);
+                }
+            }
+        }
+        Ok(result)
+    }
+
+    fn has_shared_token(&self, lhs: NodeID, rhs: NodeID) -> Result<bool> {
+        let covered_by_lhs = self.covered_token(lhs)?;
+        let covered_by_rhs = self.covered_token(rhs)?;
+        Ok(!covered_by_lhs.is_disjoint(&covered_by_rhs))
+    }
 }
 
 impl std::fmt::Display for Overlap<'_> {
@@ -99,7 +120,7 @@ impl std::fmt::Display for Overlap<'_> {
 
 impl BinaryOperatorBase for Overlap<'_> {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
-        if self.reflexive && lhs == rhs {
+        if self.reflexive && lhs.node == rhs.node {
             return Ok(true);
         }
 
@@ -117,7 +138,9 @@ impl BinaryOperatorBase for Overlap<'_> {
                 && (start_rhs == end_lhs
                     || self.gs_order.distance(start_rhs, end_lhs)?.is_some())
             {
-                return Ok(true);
+                // The covered range is only an upper bound if the coverage is
+                // discontinuous, there has to be an actually shared token.
+                return self.has_shared_token(lhs.node, rhs.node);
             }
         }
         Ok(false)
-- 
2.43.0


From 155caeb4df050eee16fa3b9f1b6e6ed792df0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 32/76] fix: large offsets and limits must not overflow or
 reserve all memory, report errors while skipping results

---
 graphannis/src/annis/db/corpusstorage.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 636d35f..89470a1 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -75,6 +75,9 @@ const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 /// Maximum number of matches for which space is reserved in advance when sorting the results.
 const MAX_INITIAL_SORT_CAPACITY: usize = 100_000;
 
+/// Maximum number of matches for which space is reserved in advance when a limit is given.
+const MAX_INITIAL_RESULT_CAPACITY: usize = 100_000;
+
 enum CacheEntry {
     Loaded(AnnotationGraph),
     NotLoaded,
@@ -1842,7 +1845,7 @@ impl CorpusStorage {
 
                 let sort_size = if let Some(limit) = find_arguments.limit {
                     // we won't need to sort all items
-                    find_arguments.offset + limit
+                    find_arguments.offset.saturating_add(limit)
                 } else {
                     // sort all items if unlimited iterator is requested
                     tmp_results.len()
@@ -1909,17 +1912,21 @@ impl CorpusStorage {
             timeout,
         )?;
 
-        let mut results: Vec<String> = if let Some(expected_size) = expected_size {
-            new_vector_with_memory_aligned_capacity(expected_size)
-        } else if let Some(limit) = find_arguments.limit {
-            new_vector_with_memory_aligned_capacity(limit)
-        } else {
-            Vec::new()
+        // The limit can be arbitrarily large, thus don't reserve more space than needed
+        let expected_size = match (expected_size, find_arguments.limit) {
+            (Some(expected_size), Some(limit)) => expected_size.min(limit),
+            (Some(expected_size), None) => expected_size,
+            (None, Some(limit)) => limit.min(MAX_INITIAL_RESULT_CAPACITY),
+            (None, None) => 0,
         };
+        let mut results: Vec<String> = new_vector_with_memory_aligned_capacity(expected_size);
 
         // skip the first entries
         let mut skipped = 0;
-        while skipped < find_arguments.offset && base_it.next().is_some() {
+        while skipped < find_arguments.offset
+            && let Some(m) = base_it.next()
+        {
+            m?;
             skipped += 1;
 
             if skipped % 1_000 == 0 {
-- 
2.43.0


From 8edbd4367128d221cac534552b0267b50b25a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 33/76] fix: sort matches of texts without connection in a
 consistent order

---
 graphannis/src/annis/db/sort_matches.rs | 96 +++++++++++++++++++------
 1 file changed, 73 insertions(+), 23 deletions(-)

diff --git a/graphannis/src/annis/db/sort_matches.rs b/graphannis/src/annis/db/sort_matches.rs
index 83fffb0..250ce73 100644
--- a/graphannis/src/annis/db/sort_matches.rs
+++ b/graphannis/src/annis/db/sort_matches.rs
@@ -11,6 +11,8 @@ use std::cmp::Ordering;
 use std::ffi::CString;
 use std::sync::Arc;
 
+use rustc_hash::{FxHashMap, FxHashSet};
+
 #[derive(Clone, Copy)]
 pub enum CollationType {
     Default,
@@ -21,6 +23,8 @@ pub(crate) struct SortCache {
     node_name: LruCache<NodeID, String>,
     left_token: LruCache<NodeID, Option<NodeID>>,
     is_connected: LruCache<(NodeID, NodeID), bool>,
+    /// The first token of the text for each token. This is only filled if texts have to be compared.
+    first_token: FxHashMap<NodeID, NodeID>,
     gs_order: Option<Arc<dyn GraphStorage>>,
 }
 
@@ -32,10 +36,50 @@ impl SortCache {
             node_name: LruCache::new(CACHE_SIZE),
             left_token: LruCache::new(CACHE_SIZE),
             is_connected: LruCache::new(CACHE_SIZE),
+            first_token: FxHashMap::default(),
             gs_order,
         }
     }
 
+    /// Check if the second token follows the first one.
+    fn is_connected(&mut self, t1: NodeID, t2: NodeID) -> Result<bool> {
+        if let Some(v) = self.is_connected.get(&(t1, t2)) {
+            return Ok(*v);
+        }
+        let result = if let Some(gs_order) = &self.gs_order {
+            gs_order.is_connected(t1, t2, 1, std::ops::Bound::Unbounded)?
+        } else {
+            false
+        };
+        self.is_connected.put((t1, t2), result);
+        Ok(result)
+    }
+
+    /// Get the first token of the text the given token belongs to.
+    fn first_token_of_text(&mut self, token: NodeID) -> Result<NodeID> {
+        let Some(gs_order) = &self.gs_order else {
+            return Ok(token);
+        };
+        let mut visited = FxHashSet::default();
+        let mut current = token;
+        let first = loop {
+            if let Some(first) = self.first_token.get(&current) {
+                break *first;
+            }
+            if !visited.insert(current) {
+                break current;
+            }
+            match gs_order.get_ingoing_edges(current).next() {
+                Some(previous) => current = previous?,
+                None => break current,
+            }
+        };
+        for t in visited {
+            self.first_token.insert(t, first);
+        }
+        Ok(first)
+    }
+
     pub fn compare_matchgroup_by_text_pos(
         &mut self,
         m1: &[Match],
@@ -91,7 +135,7 @@ impl SortCache {
             };
 
             let m2_anno_val = if let Some(val) = self.node_name.get(&m2.node) {
-                Some(Cow::Borrowed(val.as_str()))
+                Some(Cow::Owned(val.clone()))
             } else {
                 let val = node_annos.get_value_for_item(&m2.node, &NODE_NAME_KEY)?;
                 if let Some(val) = &val {
@@ -111,7 +155,9 @@ impl SortCache {
                 }
 
                 // 2. compare the token ordering
-                if let (Some(token_helper), Some(gs_order)) = (token_helper, &self.gs_order) {
+                if let Some(token_helper) = token_helper
+                    && self.gs_order.is_some()
+                {
                     // Try to get left token from cache
 
                     let m1_lefttok = if let Some(lefttok) = self.left_token.get(&m1.node).copied() {
@@ -131,28 +177,32 @@ impl SortCache {
                     };
 
                     if let (Some(m1_lefttok), Some(m2_lefttok)) = (m1_lefttok, m2_lefttok) {
-                        let token_are_connected =
-                            if let Some(v) = self.is_connected.get(&(m1_lefttok, m2_lefttok)) {
-                                *v
-                            } else {
-                                gs_order.is_connected(
-                                    m1_lefttok,
-                                    m2_lefttok,
-                                    1,
-                                    std::ops::Bound::Unbounded,
-                                )?
-                            };
-
-                        if token_are_connected {
-                            return Ok(Ordering::Less);
-                        } else if gs_order.is_connected(
-                            m2_lefttok,
-                            m1_lefttok,
-                            1,
-                            std::ops::Bound::Unbounded,
-                        )? {
-                            return Ok(Ordering::Greater);
+                        if m1_lefttok != m2_lefttok {
+                            if self.is_connected(m1_lefttok, m2_lefttok)? {
+                                return Ok(Ordering::Less);
+                            } else if self.is_connected(m2_lefttok, m1_lefttok)? {
+                                return Ok(Ordering::Greater);
+                            }
+                            // The token are part of different texts: the order of the texts
+                            // must not depend on the compared token
+                            let m1_first = self.first_token_of_text(m1_lefttok)?;
+                            let m2_first = self.first_token_of_text(m2_lefttok)?;
+                            if m1_first != m2_first {
+                                let name1 =
+                                    node_annos.get_value_for_item(&m1_first, &NODE_NAME_KEY)?;
+                                let name2 =
+                                    node_annos.get_value_for_item(&m2_first, &NODE_NAME_KEY)?;
+                                let name_cmp = compare_string(
+                                    &name1.unwrap_or_default(),
+                                    &name2.unwrap_or_default(),
+                                    collation,
+                                );
+                                return Ok(name_cmp.then(m1_first.cmp(&m2_first)));
+                            }
                         }
+                    } else if m1_lefttok.is_some() != m2_lefttok.is_some() {
+                        // Nodes without a position in the text are sorted after the ones having one
+                        return Ok(m1_lefttok.is_none().cmp(&m2_lefttok.is_none()));
                     }
                 }
 
-- 
2.43.0


From a11c2e27dc7fff6eaad9e3b8d3e04842adf9992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 34/76] fix: find the context border step by step and sort
 overlapping context regions by their position

---
 .../src/annis/db/corpusstorage/subgraph.rs    | 116 +++++++++---------
 1 file changed, 56 insertions(+), 60 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index a9e2d30..cce8c33 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -85,6 +85,29 @@ impl Iterator for TokenIterator<'_> {
     }
 }
 
+/// Follow the ordering edges at most `ctx` steps.
+fn find_context_border<'a>(
+    start: NodeID,
+    ctx: usize,
+    neighbors: impl Fn(NodeID) -> Box<dyn Iterator<Item = CoreResult<NodeID>> + 'a>,
+) -> Result<NodeID> {
+    let mut current = start;
+    let mut visited = HashSet::from([start]);
+    for _ in 0..ctx {
+        match neighbors(current).next() {
+            Some(next) => {
+                let next = next?;
+                if !visited.insert(next) {
+                    break;
+                }
+                current = next;
+            }
+            None => break,
+        }
+    }
+    Ok(current)
+}
+
 fn get_left_right_token_with_offset_with_token(
     ordering_edges: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
@@ -101,30 +124,12 @@ fn get_left_right_token_with_offset_with_token(
 
     // The context might be larger than the actual document, try to get the
     // largest possible context
-    let mut left_with_context = left_most_covered_token;
-    for ctx in (0..=ctx_left).rev() {
-        if let Some(result) = ordering_edges
-            .find_connected_inverse(left_most_covered_token, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            left_with_context = result?;
-            break;
-        }
-    }
-    let mut right_with_context = right_most_covered_token;
-    for ctx in (0..=ctx_right).rev() {
-        if let Some(result) = ordering_edges
-            .find_connected(
-                right_most_covered_token,
-                ctx,
-                std::ops::Bound::Included(ctx),
-            )
-            .next()
-        {
-            right_with_context = result?;
-            break;
-        }
-    }
+    let left_with_context = find_context_border(left_most_covered_token, ctx_left, |n| {
+        ordering_edges.get_ingoing_edges(n)
+    })?;
+    let right_with_context = find_context_border(right_most_covered_token, ctx_right, |n| {
+        ordering_edges.get_outgoing_edges(n)
+    })?;
     Ok((left_with_context, right_with_context))
 }
 
@@ -192,26 +197,10 @@ fn get_left_right_token_with_offset_with_segmentation(
 
     // The context might be larger than the actual document, try to get the
     // largest possible context
-    let mut left_with_context = left_seg;
-    for ctx in (0..=ctx_left).rev() {
-        if let Some(result) = gs_ordering
-            .find_connected_inverse(left_seg, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            left_with_context = result?;
-            break;
-        }
-    }
-    let mut right_with_context = right_seg;
-    for ctx in (0..=ctx_right).rev() {
-        if let Some(result) = gs_ordering
-            .find_connected(right_seg, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            right_with_context = result?;
-            break;
-        }
-    }
+    let left_with_context =
+        find_context_border(left_seg, ctx_left, |n| gs_ordering.get_ingoing_edges(n))?;
+    let right_with_context =
+        find_context_border(right_seg, ctx_right, |n| gs_ordering.get_outgoing_edges(n))?;
     let left_token = token_helper
         .left_token_for(left_with_context)?
         .unwrap_or(left_most_covered_token);
@@ -351,31 +340,38 @@ fn new_overlapped_nodes_iterator<'a>(
     )?;
     // Sort regions by position in the text, so the iterator of nodes
     // keeps the order of the nodes as given by the text.
-    quicksort::sort(&mut regions, move |a, b| {
-        if a.start_token == b.start_token && a.end_token == b.end_token {
+    let mut regions_with_text = Vec::with_capacity(regions.len());
+    for r in regions {
+        // Regions of the same text share the same first token
+        let first_token_of_text = find_context_border(r.start_token, usize::MAX, |n| {
+            gs_ordering.get_ingoing_edges(n)
+        })?;
+        regions_with_text.push((first_token_of_text, r));
+    }
+    quicksort::sort(&mut regions_with_text, |(text_a, a), (text_b, b)| {
+        if text_a != text_b {
+            return Ok(text_a.cmp(text_b));
+        }
+        // If both regions start with the same token, compare the end
+        let (token_a, token_b) = if a.start_token == b.start_token {
+            (a.end_token, b.end_token)
+        } else {
+            (a.start_token, b.start_token)
+        };
+        if token_a == token_b {
             Ok(Ordering::Equal)
-        } else if gs_ordering.is_connected(
-            a.end_token,
-            b.start_token,
-            1,
-            std::ops::Bound::Unbounded,
-        )? {
+        } else if gs_ordering.is_connected(token_a, token_b, 1, std::ops::Bound::Unbounded)? {
             Ok(Ordering::Less)
-        } else if gs_ordering.is_connected(
-            b.end_token,
-            a.start_token,
-            1,
-            std::ops::Bound::Unbounded,
-        )? {
+        } else if gs_ordering.is_connected(token_b, token_a, 1, std::ops::Bound::Unbounded)? {
             Ok(Ordering::Greater)
         } else {
-            Ok((a.start_token, a.end_token).cmp(&(b.start_token, b.end_token)))
+            Ok(token_a.cmp(&token_b))
         }
     })?;
 
     // Create and chain all iterators of the vector
     let mut iterators = Vec::new();
-    for token_region in regions.into_iter() {
+    for (_, token_region) in regions_with_text {
         iterators.push(token_region.into_token_iterator_with_coverage()?);
     }
     let result = iterators.into_iter().flatten();
-- 
2.43.0


From 1d9398fbe9b0ee08e2f4168994dbd23222df20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 35/76] fix: unescape XML attribute values when importing
 GraphML

Node names, component names and annotation keys with characters that
are escaped in XML attributes (like & or <) were imported in their
escaped form.
---
 core/src/graph/serialization/graphml.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index d97a5ff..eaab995 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -415,7 +415,7 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
     for att in attributes {
         let att = att?;
 
-        let att_value = String::from_utf8_lossy(&att.value);
+        let att_value = att.unescape_value()?;
 
         match att.key.0 {
             b"id" => {
@@ -547,8 +547,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         for att in e.attributes() {
                             let att = att?;
                             if att.key.0 == b"id" {
-                                current_node_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_node_id = Some(att.unescape_value()?.to_string());
                             }
                         }
                     }
@@ -559,14 +558,11 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         for att in e.attributes() {
                             let att = att?;
                             if att.key.0 == b"source" {
-                                current_source_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_source_id = Some(att.unescape_value()?.to_string());
                             } else if att.key.0 == b"target" {
-                                current_target_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_target_id = Some(att.unescape_value()?.to_string());
                             } else if att.key.0 == b"label" {
-                                current_component =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_component = Some(att.unescape_value()?.to_string());
                             }
                         }
                     }
@@ -575,8 +571,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         for att in e.attributes() {
                             let att = att?;
                             if att.key.0 == b"key" {
-                                current_data_key =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_data_key = Some(att.unescape_value()?.to_string());
                             }
                         }
                     }
-- 
2.43.0


From dca22ea297b1cb842c0d399589aea4179b160c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 36/76] fix: decode percent encoded annotation keys when
 importing GraphML

The export encodes namespace and name of annotation keys, but the import
used the encoded text as key.
---
 core/src/graph/serialization/graphml.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index eaab995..3ccae95 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -9,6 +9,7 @@ use crate::{
     util::{join_qname, split_qname},
 };
 use itertools::Itertools;
+use percent_encoding::percent_decode_str;
 use quick_xml::{
     Reader, Writer,
     events::{
@@ -16,6 +17,7 @@ use quick_xml::{
     },
 };
 use std::{
+    borrow::Cow,
     cmp::Ordering,
     collections::{BTreeMap, BTreeSet, HashMap},
     io::{BufReader, BufWriter, Read, Write},
@@ -423,9 +425,10 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
             }
             b"attr.name" => {
                 let (ns, name) = split_qname(att_value.as_ref());
+                // The namespace and the name are percent encoded on export
                 anno_key = Some(AnnoKey {
-                    ns: ns.unwrap_or("").into(),
-                    name: name.into(),
+                    ns: decode_qname_part(ns.unwrap_or("")).into(),
+                    name: decode_qname_part(name).into(),
                 });
             }
             _ => {}
@@ -438,6 +441,14 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
     Ok(())
 }
 
+/// Revert the percent encoding of [`join_qname`]. Returns the text itself if it
+/// is not the encoded form of a valid UTF-8 string.
+fn decode_qname_part(part: &str) -> Cow<'_, str> {
+    percent_decode_str(part)
+        .decode_utf8()
+        .unwrap_or(Cow::Borrowed(part))
+}
+
 fn add_node(
     node_updates: &mut GraphUpdate,
     current_node_id: &Option<String>,
-- 
2.43.0


From 91c9a4503f3365abdbb62c31f3fc8f9e3228cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:30 +0000
Subject: [PATCH 37/76] fix: keep the complete text of GraphML data values and
 configurations

A value which consists of several text parts (e.g. because of a comment)
was reduced to its last part, CDATA sections were ignored and a
configuration which contains "]]>" resulted in an invalid document.
---
 core/src/graph/serialization/graphml.rs | 37 ++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index 3ccae95..e434b64 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -128,6 +128,19 @@ fn write_data<W: std::io::Write>(
     Ok(())
 }
 
+/// Write a text as CDATA. A "]]>" in the text would end the section and is
+/// therefore distributed over two consecutive sections.
+fn write_cdata<W: std::io::Write>(text: &str, writer: &mut Writer<W>) -> Result<()> {
+    let mut remaining = text;
+    while let Some(end) = remaining.find("]]>") {
+        let (section, rest) = remaining.split_at(end + "]]".len());
+        writer.write_event(Event::CData(BytesCData::new(section)))?;
+        remaining = rest;
+    }
+    writer.write_event(Event::CData(BytesCData::new(remaining)))?;
+    Ok(())
+}
+
 fn compare_results<T: Ord>(a: &Result<T>, b: &Result<T>) -> Ordering {
     if let (Ok(a), Ok(b)) = (a, b) {
         a.cmp(b)
@@ -321,7 +334,7 @@ where
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
         // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_cdata(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -388,7 +401,7 @@ where
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
         // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_cdata(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -590,17 +603,27 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                 }
             }
             Event::Text(t) if in_graph && level == 4 && current_data_key.is_some() => {
-                current_data_value = Some(t.unescape()?.to_string());
+                // There can be several text events for the same value, e.g. when
+                // it contains a comment or CDATA section
+                current_data_value
+                    .get_or_insert_with(String::default)
+                    .push_str(&t.unescape()?);
             }
 
             Event::CData(t) => {
                 if let Some(current_data_key) = &current_data_key
                     && in_graph
-                    && level == 3
-                    && current_data_key == "k0"
                 {
-                    // This is the configuration content
-                    config = Some(String::from_utf8_lossy(&t).to_string());
+                    let t = String::from_utf8_lossy(&t);
+                    if level == 3 && current_data_key == "k0" {
+                        // This is the configuration content, which is split
+                        // into several sections if it contains "]]>"
+                        config.get_or_insert_with(String::default).push_str(&t);
+                    } else if level == 4 {
+                        current_data_value
+                            .get_or_insert_with(String::default)
+                            .push_str(&t);
+                    }
                 }
             }
             Event::End(ref e) => {
-- 
2.43.0


From b83bb5761253ef0eafb79ef772f40854b64b3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 38/76] fix: escape the separator in component layers of
 GraphML documents

---
 core/src/graph/serialization/graphml.rs | 40 ++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index e434b64..3d35567 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -9,7 +9,7 @@ use crate::{
     util::{join_qname, split_qname},
 };
 use itertools::Itertools;
-use percent_encoding::percent_decode_str;
+use percent_encoding::{AsciiSet, percent_decode_str, utf8_percent_encode};
 use quick_xml::{
     Reader, Writer,
     events::{
@@ -24,6 +24,10 @@ use std::{
     str::FromStr,
 };
 
+/// Characters of a component layer that would be ambiguous in the textual
+/// description of the component.
+const LAYER_ENCODE_SET: &AsciiSet = &AsciiSet::EMPTY.add(b'/').add(b'%');
+
 fn write_annotation_keys<CT: ComponentType, W: std::io::Write>(
     graph: &Graph<CT>,
     has_graph_configuration: bool,
@@ -207,6 +211,25 @@ fn write_nodes<CT: ComponentType, W: std::io::Write>(
     Ok(())
 }
 
+/// Create a textual description of the component that can be parsed with
+/// [`parse_component_description`].
+///
+/// The separator "/" is percent encoded when it is used inside of the layer.
+fn component_description<CT: ComponentType>(c: &Component<CT>) -> String {
+    let layer = utf8_percent_encode(&c.layer, LAYER_ENCODE_SET);
+    format!("{:?}/{}/{}", c.get_type(), layer, c.name)
+}
+
+fn parse_component_description<CT: ComponentType>(description: &str) -> Result<Component<CT>> {
+    let component = Component::<CT>::from_str(description)?;
+    let layer = percent_decoded(&component.layer);
+    Ok(Component::new(
+        component.get_type(),
+        layer.as_ref().into(),
+        component.name,
+    ))
+}
+
 fn write_edges<CT: ComponentType, W: std::io::Write>(
     graph: &Graph<CT>,
     writer: &mut Writer<W>,
@@ -265,7 +288,10 @@ fn write_edges<CT: ComponentType, W: std::io::Write>(
                             edge_start.push_attribute(("source", source_id.as_ref()));
                             edge_start.push_attribute(("target", target_id.as_ref()));
                             // Use the "label" attribute as component type. This is consistent with how Neo4j interprets this non-standard attribute
-                            edge_start.push_attribute(("label", c.to_string().as_ref()));
+                            edge_start.push_attribute((
+                                "label",
+                                component_description::<CT>(&c).as_ref(),
+                            ));
 
                             writer.write_event(Event::Start(edge_start))?;
 
@@ -440,8 +466,8 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
                 let (ns, name) = split_qname(att_value.as_ref());
                 // The namespace and the name are percent encoded on export
                 anno_key = Some(AnnoKey {
-                    ns: decode_qname_part(ns.unwrap_or("")).into(),
-                    name: decode_qname_part(name).into(),
+                    ns: percent_decoded(ns.unwrap_or("")).into(),
+                    name: percent_decoded(name).into(),
                 });
             }
             _ => {}
@@ -454,9 +480,9 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
     Ok(())
 }
 
-/// Revert the percent encoding of [`join_qname`]. Returns the text itself if it
+/// Revert the percent encoding, e.g. of [`join_qname`]. Returns the text itself if it
 /// is not the encoded form of a valid UTF-8 string.
-fn decode_qname_part(part: &str) -> Cow<'_, str> {
+fn percent_decoded(part: &str) -> Cow<'_, str> {
     percent_decode_str(part)
         .decode_utf8()
         .unwrap_or(Cow::Borrowed(part))
@@ -500,7 +526,7 @@ fn add_edge<CT: ComponentType>(
         (current_source_id, current_target_id, current_component)
     {
         // Insert graph update for this edge
-        if let Ok(component) = Component::<CT>::from_str(component) {
+        if let Ok(component) = parse_component_description::<CT>(component) {
             edge_updates.add_event(UpdateEvent::AddEdge {
                 source_node: source.clone(),
                 target_node: target.clone(),
-- 
2.43.0


From 015183c1eca9c4ae02ab9c0b80889ef8f2392365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:32 +0000
Subject: [PATCH 39/76] fix: do not remember non-existing corpora in the corpus
 cache

Asking for information about a corpus that does not exist had the effect
that it could not be created or imported later.
---
 graphannis/src/annis/db/corpusstorage.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 89470a1..300b5b6 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -623,11 +623,16 @@ impl CorpusStorage {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
 
-        let entry = cache
-            .entry(corpus_name)
-            .or_insert_with(|| Arc::new(RwLock::new(CacheEntry::NotLoaded)));
+        if let Some(entry) = cache.get(&corpus_name) {
+            return Ok(entry.clone());
+        }
+        let entry = Arc::new(RwLock::new(CacheEntry::NotLoaded));
+        // Do not remember entries for corpora that do not exist
+        if self.corpus_directory_on_disk(&corpus_name).is_dir() {
+            cache.insert(corpus_name, entry.clone());
+        }
 
-        Ok(entry.clone())
+        Ok(entry)
     }
 
     fn load_entry_with_lock(
-- 
2.43.0


From 4fbdfd51c0628f0646a998952e9d6fa8f78e51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 40/76] fix: never use the data directory or its parent as
 directory of a corpus

The corpus names "", "." and ".." were used literally as name of the
sub-directory, e.g. deleting the corpus ".." removed the parent of the
data directory.
---
 graphannis/src/annis/db/corpusstorage.rs | 32 ++++++++++++++----------
 graphannis/src/annis/errors.rs           |  2 ++
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 300b5b6..c749021 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -519,7 +519,7 @@ impl CorpusStorage {
 
     fn get_corpus_config(&self, corpus_name: &str) -> Result<Option<CorpusConfiguration>> {
         let corpus_config_path = self
-            .corpus_directory_on_disk(corpus_name)
+            .corpus_directory_on_disk(corpus_name)?
             .join("corpus-config.toml");
         if corpus_config_path.is_file() {
             let file_content = std::fs::read_to_string(corpus_config_path)?;
@@ -531,7 +531,7 @@ impl CorpusStorage {
     }
 
     fn write_corpus_config(&self, corpus_name: &str, config: CorpusConfiguration) -> Result<()> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let corpus_config_path = db_path.join("corpus-config.toml");
         info!(
@@ -628,7 +628,7 @@ impl CorpusStorage {
         }
         let entry = Arc::new(RwLock::new(CacheEntry::NotLoaded));
         // Do not remember entries for corpora that do not exist
-        if self.corpus_directory_on_disk(&corpus_name).is_dir() {
+        if self.corpus_directory_on_disk(&corpus_name)?.is_dir() {
             cache.insert(corpus_name, entry.clone());
         }
 
@@ -645,7 +645,7 @@ impl CorpusStorage {
         let cache = &mut *cache_lock;
 
         // if not loaded yet, get write-lock and load entry
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let create_corpus = if db_path.is_dir() {
             false
@@ -1024,7 +1024,7 @@ impl CorpusStorage {
         self.update_corpus_size_info(&mut config, &graph);
 
         let corpus_name = corpus_name.unwrap_or(orig_name);
-        let db_path = self.corpus_directory_on_disk(&corpus_name);
+        let db_path = self.corpus_directory_on_disk(&corpus_name)?;
 
         let mut cache_lock = self.lock_cache_with_unused_corpus(&corpus_name)?;
         let cache = &mut *cache_lock;
@@ -1161,7 +1161,7 @@ impl CorpusStorage {
             name: "file".into(),
         };
 
-        let base_path = self.corpus_directory_on_disk(corpus_name).join("files");
+        let base_path = self.corpus_directory_on_disk(corpus_name)?.join("files");
         if base_path.is_dir() {
             let base_path = base_path.canonicalize()?;
 
@@ -1393,7 +1393,7 @@ impl CorpusStorage {
     /// Delete a corpus from this corpus storage.
     /// Returns `true` if the corpus was successfully deleted and `false` if no such corpus existed.
     pub fn delete(&self, corpus_name: &str) -> Result<bool> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         // other queries or background writers might still have access to the corpus and need to finish first
         let mut cache_lock = self.lock_cache_with_unused_corpus(corpus_name)?;
@@ -1422,7 +1422,7 @@ impl CorpusStorage {
     /// Use [`apply_update`](CorpusStorage::apply_update) to add elements to the corpus. Returns whether a
     /// new corpus was created.
     pub fn create_empty_corpus(&self, corpus_name: &str, disk_based: bool) -> Result<bool> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
@@ -2429,7 +2429,7 @@ impl CorpusStorage {
             // Get the components by listing the directories on the disk We
             // could use `Graph:get_all_components() but this needs to load the
             // annotation storage which can be costly.
-            let db_path = self.corpus_directory_on_disk(corpus_name);
+            let db_path = self.corpus_directory_on_disk(corpus_name)?;
             let backup = db_path.join("backup");
 
             let dir2load = if backup.exists() && backup.is_dir() {
@@ -2572,13 +2572,19 @@ impl CorpusStorage {
         Ok(removed)
     }
 
-    fn corpus_directory_on_disk(&self, corpus_name: &str) -> PathBuf {
-        let escaped_corpus_name: Cow<str> =
-            utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into();
+    fn corpus_directory_on_disk(&self, corpus_name: &str) -> Result<PathBuf> {
+        let escaped_corpus_name: Cow<str> = match corpus_name {
+            // The directory would be the one of the corpus storage itself
+            "" => return Err(CorpusStorageError::EmptyCorpusName.into()),
+            // These names have a special meaning as directory name
+            "." => "%2E".into(),
+            ".." => "%2E%2E".into(),
+            _ => utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into(),
+        };
         let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), &escaped_corpus_name]
             .iter()
             .collect();
-        db_path
+        Ok(db_path)
     }
 
     /// Return the current size and loaded corpora as debug string.
diff --git a/graphannis/src/annis/errors.rs b/graphannis/src/annis/errors.rs
index 017fe79..2f3d3ff 100644
--- a/graphannis/src/annis/errors.rs
+++ b/graphannis/src/annis/errors.rs
@@ -115,6 +115,8 @@ pub enum CorpusStorageError {
         corpus: String,
         source: Box<dyn std::error::Error + Send + Sync>,
     },
+    #[error("a corpus name must not be empty")]
+    EmptyCorpusName,
     #[error("could not create corpus with name {corpus}")]
     CreateCorpus {
         corpus: String,
-- 
2.43.0


From 9aa72f34fe6e5a0336f2ad02af47e8efde44e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:35 +0000
Subject: [PATCH 41/76] fix: list components of updates that are not persisted
 yet

The list of components was always read from the disk and thus incomplete
until the background writer had finished or when the updates are only in
the write-ahead log.
---
 graphannis/src/annis/db/corpusstorage.rs | 43 ++++++++++++++++++------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index c749021..c9a070b 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2423,20 +2423,33 @@ impl CorpusStorage {
         ctype: Option<AnnotationComponentType>,
         name: Option<&str>,
     ) -> Result<Vec<Component<AnnotationComponentType>>> {
-        if let Ok(db_entry) = self.get_entry(corpus_name) {
+        if let Ok(mut db_entry) = self.get_entry(corpus_name) {
+            let db_path = self.corpus_directory_on_disk(corpus_name)?;
+
+            let has_pending_updates = {
+                let lock = db_entry.read()?;
+                matches!(&*lock, CacheEntry::NotLoaded) && {
+                    let dir2load = directory_with_last_saved_graph(&db_path);
+                    dir2load.join("update_log.bin").is_file()
+                }
+            };
+            if has_pending_updates {
+                // The updates that have not been persisted yet can change the
+                // components
+                db_entry = self.get_loaded_entry(corpus_name, false, false)?;
+            }
+
             // Lock the entry so no-one else can write to it
-            let _lock = db_entry.read()?;
+            let lock = db_entry.read()?;
+            if let CacheEntry::Loaded(db) = &*lock {
+                // The changes of a loaded corpus might not have been written to
+                // the disk yet
+                return Ok(db.get_all_components(ctype, name));
+            }
             // Get the components by listing the directories on the disk We
             // could use `Graph:get_all_components() but this needs to load the
             // annotation storage which can be costly.
-            let db_path = self.corpus_directory_on_disk(corpus_name)?;
-            let backup = db_path.join("backup");
-
-            let dir2load = if backup.exists() && backup.is_dir() {
-                backup.clone()
-            } else {
-                db_path.join("current")
-            };
+            let dir2load = directory_with_last_saved_graph(&db_path);
             let components = graphannis_core::graph::find_components_from_disk::<
                 AnnotationComponentType,
                 _,
@@ -2636,6 +2649,16 @@ impl Drop for CorpusStorage {
     }
 }
 
+/// Returns the sub-directory of the corpus directory from which the graph would be loaded.
+fn directory_with_last_saved_graph(db_path: &Path) -> PathBuf {
+    let backup = db_path.join("backup");
+    if backup.is_dir() {
+        backup
+    } else {
+        db_path.join("current")
+    }
+}
+
 /// Returns true if the cache entry is currently used outside of the cache.
 fn is_used_entry(entry: &Arc<RwLock<CacheEntry>>) -> bool {
     Arc::strong_count(entry) > 1
-- 
2.43.0


From 1bb31003319b477d28bd59dadba9e183d11f7529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 42/76] fix: do not count nodes without edges as part of a
 component

Deleting the last edge of a node left an empty entry behind, which was
still counted in the statistics of the component (e.g. as size of a
segmentation).
---
 core/src/graph/storage/adjacencylist.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index b865b7a..9dfd771 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -298,12 +298,19 @@ impl WriteableGraphStorage for AdjacencyListStorage {
             && let Ok(idx) = outgoing.binary_search(&edge.target)
         {
             outgoing.remove(idx);
+            if outgoing.is_empty() {
+                // Nodes without any edge are not part of the component anymore
+                self.edges.remove(&edge.source);
+            }
         }
 
         if let Some(ingoing) = self.inverse_edges.get_mut(&edge.target)
             && let Ok(idx) = ingoing.binary_search(&edge.source)
         {
             ingoing.remove(idx);
+            if ingoing.is_empty() {
+                self.inverse_edges.remove(&edge.target);
+            }
         }
         self.annos.remove_item(edge)?;
 
-- 
2.43.0


From b5220fe930cc822c90747b67213d520fe1878b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 43/76] fix: reject update lists with unordered event IDs
 instead of panicking

The length of a deserialized list is now the number of its events and
not the ID of the last one.
---
 core/src/errors.rs       |  2 ++
 core/src/graph/update.rs | 23 +++++++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/core/src/errors.rs b/core/src/errors.rs
index faa2ea4..69db88d 100644
--- a/core/src/errors.rs
+++ b/core/src/errors.rs
@@ -51,6 +51,8 @@ pub enum GraphAnnisCoreError {
     LfuCache(String),
     #[error("File to persist graph updates is missing.")]
     GraphUpdatePersistanceFileMissing,
+    #[error("the list of graph updates can not contain more events")]
+    TooManyUpdateEvents,
     #[error(transparent)]
     BtreeIndex(#[from] transient_btree_index::Error),
     #[error(transparent)]
diff --git a/core/src/graph/update.rs b/core/src/graph/update.rs
index 51631e1..083a49c 100644
--- a/core/src/graph/update.rs
+++ b/core/src/graph/update.rs
@@ -92,6 +92,7 @@ enum ChangeSet {
 pub struct GraphUpdate {
     changesets: Mutex<Vec<ChangeSet>>,
     event_counter: u64,
+    last_event_id: u64,
     serialization: bincode::config::DefaultOptions,
 }
 
@@ -106,6 +107,7 @@ impl GraphUpdate {
     pub fn new() -> GraphUpdate {
         GraphUpdate {
             event_counter: 0,
+            last_event_id: 0,
             changesets: Mutex::new(Vec::new()),
             serialization: bincode::options(),
         }
@@ -113,15 +115,19 @@ impl GraphUpdate {
 
     /// Add the given event to the update list.
     pub fn add_event(&mut self, event: UpdateEvent) -> Result<()> {
-        let new_event_counter = self.event_counter + 1;
-        let key = new_event_counter.create_key();
+        let new_event_id = self
+            .last_event_id
+            .checked_add(1)
+            .ok_or(GraphAnnisCoreError::TooManyUpdateEvents)?;
+        let key = new_event_id.create_key();
         let value = self.serialization.serialize(&event)?;
         let mut changeset = self.changesets.lock()?;
         if let ChangeSet::InProgress { table_builder, .. } =
             current_inprogress_changeset(&mut changeset)?
         {
             table_builder.add(&key, &value)?;
-            self.event_counter = new_event_counter;
+            self.last_event_id = new_event_id;
+            self.event_counter += 1;
         }
         Ok(())
     }
@@ -305,9 +311,17 @@ impl<'de> Visitor<'de> for GraphUpdateVisitor {
         );
 
         let mut event_counter = 0;
+        let mut last_event_id = None;
 
         while let Some((id, event)) = access.next_entry::<u64, UpdateEvent>()? {
-            event_counter = id;
+            // The events are stored in a table which is sorted by the ID
+            if last_event_id.is_some_and(|last| last >= id) {
+                return Err(M::Error::custom(format!(
+                    "the update event ID {id} is not in ascending order"
+                )));
+            }
+            last_event_id = Some(id);
+            event_counter += 1;
             let key = id.create_key();
             let value = serialization.serialize(&event).map_err(M::Error::custom)?;
             table_builder.add(&key, &value).map_err(M::Error::custom)?
@@ -322,6 +336,7 @@ impl<'de> Visitor<'de> for GraphUpdateVisitor {
         let g = GraphUpdate {
             changesets: Mutex::new(changesets),
             event_counter,
+            last_event_id: last_event_id.unwrap_or_default(),
             serialization,
         };
 
-- 
2.43.0


From 841dfefa9d4355c276fd07c6148edde8e33df55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:51 +0000
Subject: [PATCH 44/76] fix: only make the first saved version of a graph
 visible after it was written completely

---
 core/src/graph/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index a387f74..91e7d5e 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -849,14 +849,21 @@ impl<CT: ComponentType> Graph<CT> {
             }
         }
 
-        // Save the complete corpus without the write log to the target location
-        self.internal_save(&current_location)?;
-
         if !backup_location.exists() {
-            // There was no older version
+            // There is no older version. Only make the new one visible when it was written completely.
+            std::fs::create_dir_all(location)?;
+            let tmp_dir = tempfile::Builder::new()
+                .prefix("temporary-graphannis-save")
+                .tempdir_in(location)?;
+            let new_location = tmp_dir.path().join("current");
+            self.internal_save(&new_location)?;
+            std::fs::rename(&new_location, &current_location)?;
             return Ok(());
         }
 
+        // Save the complete corpus without the write log to the target location
+        self.internal_save(&current_location)?;
+
         // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
         let tmp_dir = tempfile::Builder::new()
             .prefix("temporary-graphannis-backup")
-- 
2.43.0


From 77a889e35f8fc8840bbc5898dde76deb24cc4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 45/76] fix: allow to create a corpus again when its creation
 was interrupted

---
 graphannis/src/annis/db/corpusstorage.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index c9a070b..1714e7f 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -506,7 +506,8 @@ impl CorpusStorage {
                     source: e,
                     path: self.db_dir.to_string_lossy().to_string(),
                 })?;
-            if ftype.is_dir() {
+            // Ignore directories where the creation of the corpus was interrupted
+            if ftype.is_dir() && has_saved_graph(&c_dir.path()) {
                 let directory_name = c_dir.file_name();
                 let corpus_name = directory_name.to_string_lossy();
                 // Use the decoded corpus name instead of the directory name
@@ -628,7 +629,7 @@ impl CorpusStorage {
         }
         let entry = Arc::new(RwLock::new(CacheEntry::NotLoaded));
         // Do not remember entries for corpora that do not exist
-        if self.corpus_directory_on_disk(&corpus_name)?.is_dir() {
+        if has_saved_graph(&self.corpus_directory_on_disk(&corpus_name)?) {
             cache.insert(corpus_name, entry.clone());
         }
 
@@ -647,7 +648,7 @@ impl CorpusStorage {
         // if not loaded yet, get write-lock and load entry
         let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
-        let create_corpus = if db_path.is_dir() {
+        let create_corpus = if has_saved_graph(&db_path) {
             false
         } else if create_if_missing {
             true
@@ -1427,7 +1428,7 @@ impl CorpusStorage {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
 
-        if cache.contains_key(corpus_name) || db_path.is_dir() {
+        if cache.contains_key(corpus_name) || has_saved_graph(&db_path) {
             Ok(false)
         } else {
             self.load_entry_with_lock(&mut cache_lock, corpus_name, true, disk_based)?;
@@ -2659,6 +2660,13 @@ fn directory_with_last_saved_graph(db_path: &Path) -> PathBuf {
     }
 }
 
+/// Returns true if there is a saved graph in the corpus directory.
+fn has_saved_graph(db_path: &Path) -> bool {
+    let current = db_path.join("current");
+    // A background thread can move these directories between the calls
+    current.is_dir() || db_path.join("backup").is_dir() || current.is_dir()
+}
+
 /// Returns true if the cache entry is currently used outside of the cache.
 fn is_used_entry(entry: &Arc<RwLock<CacheEntry>>) -> bool {
     Arc::strong_count(entry) > 1
-- 
2.43.0


From a0d9feb793510694a1137b1defc53a9e27abf974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:07 +0000
Subject: [PATCH 46/76] fix: report errors when writing the last buffered data
 of saved files

---
 core/src/annostorage/inmemory.rs | 3 +++
 core/src/annostorage/ondisk.rs   | 3 +++
 core/src/graph/storage/mod.rs    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index de092af..9fb12e5 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -12,6 +12,7 @@ use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::hash::Hash;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -1004,6 +1005,8 @@ where
         let f = std::fs::File::create(location.join("nodes_v1.bin"))?;
         let mut writer = std::io::BufWriter::new(f);
         bincode::serialize_into(&mut writer, self)?;
+        // Errors when writing the buffered data would be ignored without flushing explicitly
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index cf4240a..3cc427a 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -15,6 +15,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use transient_btree_index::BtreeConfig;
@@ -1207,6 +1208,8 @@ where
         bincode::serialize_into(&mut writer, &self.anno_key_sizes)?;
         bincode::serialize_into(&mut writer, &self.histogram_bounds)?;
         bincode::serialize_into(&mut writer, &self.anno_key_symbols)?;
+        // Errors when writing the buffered data would be ignored without flushing explicitly
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index c8bd2b9..3549dff 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -19,6 +19,7 @@ use itertools::Itertools;
 use rustc_hash::FxHashSet;
 use serde::{Deserialize, Serialize};
 use std::collections::VecDeque;
+use std::io::Write;
 use std::{self, path::Path};
 
 /// Some general statistical numbers specific to a graph component
@@ -234,6 +235,8 @@ where
     let f_data = std::fs::File::create(data_path)?;
     let mut writer = std::io::BufWriter::new(f_data);
     bincode::serialize_into(&mut writer, field)?;
+    // Errors when writing the buffered data would be ignored without flushing explicitly
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 98b4ed83d7ed797aa5c57186f5cd10e70ec80755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 47/76] fix: endless recursion when displaying an error of the
 sorted string tables

---
 core/src/errors.rs       | 12 ++++++++++--
 core/src/graph/update.rs |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/src/errors.rs b/core/src/errors.rs
index 69db88d..898875d 100644
--- a/core/src/errors.rs
+++ b/core/src/errors.rs
@@ -41,8 +41,10 @@ pub enum GraphAnnisCoreError {
     Io(#[from] std::io::Error),
     #[error(transparent)]
     PersistingTemporaryFile(#[from] tempfile::PersistError),
-    #[error(transparent)]
-    SortedStringTable(#[from] sstable::error::Status),
+    // The display implementation of the wrapped error never returns, so it can't be used here and must not be
+    // given as source
+    #[error("{}", .0.err)]
+    SortedStringTable(sstable::error::Status),
     #[error(transparent)]
     Xml(#[from] quick_xml::Error),
     #[error(transparent)]
@@ -95,6 +97,12 @@ impl From<GraphAnnisCoreError> for ComponentTypeError {
     }
 }
 
+impl From<sstable::error::Status> for GraphAnnisCoreError {
+    fn from(e: sstable::error::Status) -> Self {
+        Self::SortedStringTable(e)
+    }
+}
+
 pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;
 
 #[macro_export]
diff --git a/core/src/graph/update.rs b/core/src/graph/update.rs
index 083a49c..3833708 100644
--- a/core/src/graph/update.rs
+++ b/core/src/graph/update.rs
@@ -324,7 +324,9 @@ impl<'de> Visitor<'de> for GraphUpdateVisitor {
             event_counter += 1;
             let key = id.create_key();
             let value = serialization.serialize(&event).map_err(M::Error::custom)?;
-            table_builder.add(&key, &value).map_err(M::Error::custom)?
+            table_builder
+                .add(&key, &value)
+                .map_err(|e| M::Error::custom(GraphAnnisCoreError::from(e)))?
         }
 
         let c = ChangeSet::InProgress {
-- 
2.43.0


From 9b2e127505234a98f4da1b5f03520394c1d99364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 48/76] fix: do not ignore partial writes when saving sorted
 string tables

---
 core/src/graph/update.rs          | 10 +++++++---
 core/src/util/disk_collections.rs | 20 +++++++++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/update.rs b/core/src/graph/update.rs
index 3833708..ba33671 100644
--- a/core/src/graph/update.rs
+++ b/core/src/graph/update.rs
@@ -6,6 +6,7 @@ use std::sync::Mutex;
 
 use crate::errors::{GraphAnnisCoreError, Result};
 use crate::serializer::KeySerializer;
+use crate::util::disk_collections::CompleteWriter;
 use bincode::Options;
 use facet::Facet;
 use serde::de::Error as DeserializeError;
@@ -80,7 +81,7 @@ pub enum UpdateEvent {
 
 enum ChangeSet {
     InProgress {
-        table_builder: Box<TableBuilder<File>>,
+        table_builder: Box<TableBuilder<CompleteWriter<File>>>,
         outfile: NamedTempFile,
     },
     Finished {
@@ -188,7 +189,10 @@ fn current_inprogress_changeset(changesets: &mut Vec<ChangeSet>) -> Result<&mut
     if needs_new_changeset {
         // Create a new changeset
         let outfile = NamedTempFile::new()?;
-        let table_builder = TableBuilder::new(sstable::Options::default(), outfile.reopen()?);
+        let table_builder = TableBuilder::new(
+            sstable::Options::default(),
+            CompleteWriter(outfile.reopen()?),
+        );
         let c = ChangeSet::InProgress {
             table_builder: Box::new(table_builder),
             outfile,
@@ -307,7 +311,7 @@ impl<'de> Visitor<'de> for GraphUpdateVisitor {
         let outfile = NamedTempFile::new().map_err(M::Error::custom)?;
         let mut table_builder = TableBuilder::new(
             sstable::Options::default(),
-            outfile.reopen().map_err(M::Error::custom)?,
+            CompleteWriter(outfile.reopen().map_err(M::Error::custom)?),
         );
 
         let mut event_counter = 0;
diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index b2d1d3d..b0cc206 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -9,6 +9,7 @@ use crate::serializer::KeyVec;
 use crate::{errors::Result, serializer::KeySerializer};
 use std::borrow::Cow;
 use std::collections::BTreeMap;
+use std::io::Write;
 use std::iter::{FusedIterator, Peekable};
 use std::marker::PhantomData;
 use std::ops::{Bound, RangeBounds};
@@ -21,6 +22,20 @@ const BLOCK_MAX_SIZE: usize = 4 * KB;
 /// Uses a cache for each disk table with 8 MB capacity.
 pub const DEFAULT_BLOCK_CACHE_CAPACITY: usize = 8 * MB;
 
+/// Wrapper for the output of a [`TableBuilder`], which does not handle a partial write to the output.
+pub(crate) struct CompleteWriter<W: Write>(pub(crate) W);
+
+impl<W: Write> Write for CompleteWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write_all(buf)?;
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
 pub enum EvictionStrategy {
     MaximumItems(usize),
 }
@@ -318,7 +333,10 @@ where
             .create(true)
             .truncate(true)
             .open(location)?;
-        let mut builder = TableBuilder::new(custom_options(self.block_cache_capacity), out_file);
+        let mut builder = TableBuilder::new(
+            custom_options(self.block_cache_capacity),
+            CompleteWriter(out_file),
+        );
         for entry in self.iter()? {
             let (key, value) = entry?;
             let key = key.create_key();
-- 
2.43.0


From d91f2b815400c501fea537d5bf780deac04e5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 49/76] fix: an update list whose events could not be written
 or read completely must not be applied

---
 core/src/graph/update.rs | 43 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/core/src/graph/update.rs b/core/src/graph/update.rs
index ba33671..15ee17d 100644
--- a/core/src/graph/update.rs
+++ b/core/src/graph/update.rs
@@ -87,6 +87,8 @@ enum ChangeSet {
     Finished {
         table: Table,
     },
+    /// The events could not be written to the file.
+    Failed,
 }
 
 /// A list of changes to apply to an graph.
@@ -123,10 +125,13 @@ impl GraphUpdate {
         let key = new_event_id.create_key();
         let value = self.serialization.serialize(&event)?;
         let mut changeset = self.changesets.lock()?;
-        if let ChangeSet::InProgress { table_builder, .. } =
-            current_inprogress_changeset(&mut changeset)?
-        {
-            table_builder.add(&key, &value)?;
+        let current = current_inprogress_changeset(&mut changeset)?;
+        if let ChangeSet::InProgress { table_builder, .. } = current {
+            if let Err(e) = table_builder.add(&key, &value) {
+                // The builder and the events it contains can't be used anymore
+                *current = ChangeSet::Failed;
+                return Err(e.into());
+            }
             self.last_event_id = new_event_id;
             self.event_counter += 1;
         }
@@ -152,10 +157,10 @@ impl GraphUpdate {
 }
 
 fn finish_all_changesets(changesets: &mut Vec<ChangeSet>) -> Result<()> {
-    // Remove all changesets from the vector and finish them
-    let finished: Result<Vec<ChangeSet>> = changesets
-        .drain(..)
-        .map(|c| match c {
+    for c in changesets.iter_mut() {
+        // Mark the changeset as failed until it has been finished successfully: an update list must never be
+        // treated as complete if some of the events are missing.
+        match std::mem::replace(c, ChangeSet::Failed) {
             ChangeSet::InProgress {
                 table_builder,
                 outfile,
@@ -165,13 +170,12 @@ fn finish_all_changesets(changesets: &mut Vec<ChangeSet>) -> Result<()> {
                 let file = outfile.reopen()?;
                 let size = file.metadata()?.len();
                 let table = Table::new(sstable::Options::default(), Box::new(file), size as usize)?;
-                Ok(ChangeSet::Finished { table })
+                *c = ChangeSet::Finished { table };
             }
-            ChangeSet::Finished { table } => Ok(ChangeSet::Finished { table }),
-        })
-        .collect();
-    // Re-add the finished changesets
-    changesets.extend(finished?);
+            ChangeSet::Finished { table } => *c = ChangeSet::Finished { table },
+            ChangeSet::Failed => return Err(GraphAnnisCoreError::GraphUpdatePersistanceFileMissing),
+        }
+    }
 
     Ok(())
 }
@@ -181,6 +185,9 @@ fn current_inprogress_changeset(changesets: &mut Vec<ChangeSet>) -> Result<&mut
         match c {
             ChangeSet::InProgress { .. } => false,
             ChangeSet::Finished { .. } => true,
+            ChangeSet::Failed => {
+                return Err(GraphAnnisCoreError::GraphUpdatePersistanceFileMissing);
+            }
         }
     } else {
         true
@@ -221,7 +228,7 @@ impl GraphUpdateIterator {
         let iterators: Vec<_> = changesets
             .iter()
             .filter_map(|c| match c {
-                ChangeSet::InProgress { .. } => None,
+                ChangeSet::InProgress { .. } | ChangeSet::Failed => None,
                 ChangeSet::Finished { table } => {
                     let mut it = table.iter();
                     it.seek_to_first();
@@ -259,9 +266,15 @@ impl std::iter::Iterator for GraphUpdateIterator {
 
                 // Advance for next iteration
                 it.advance();
+                self.size_hint = self.size_hint.saturating_sub(1);
                 return Some(Ok((id, event)));
             }
         }
+        if self.size_hint > 0 {
+            // The table iterators just stop when the file can't be read
+            self.size_hint = 0;
+            return Some(Err(GraphAnnisCoreError::GraphUpdatePersistanceFileMissing));
+        }
         None
     }
 
-- 
2.43.0


From de6d6cecf6c12016f8823a6082746fb0f597c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 50/76] fix: a graph with a backup can be opened when the
 restored version can't be saved

---
 core/src/graph/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 91e7d5e..0a9eeb2 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -415,8 +415,15 @@ impl<CT: ComponentType> Graph<CT> {
         }
 
         if load_from_backup {
-            // save the current corpus under the actual location and remove the backup
-            self.internal_save_with_backup(location)?;
+            // Save the current corpus under the actual location and remove the backup. If this is not possible (e.g.
+            // because there is no space left), the content is still available from the backup.
+            if let Err(e) = self.internal_save_with_backup(location) {
+                warn!(
+                    "could not save graph restored from backup to {}: {}",
+                    location.to_string_lossy(),
+                    e
+                );
+            }
         }
 
         Ok(())
-- 
2.43.0


From 70aa974feba6ed11972ee6f970edd995c90c93ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 51/76] fix: do not use or persist a graph that could not be
 restored after a failed update

---
 core/src/graph/mod.rs                    | 13 +++++++++++--
 graphannis/src/annis/db/corpusstorage.rs |  8 +++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 0a9eeb2..218f8a0 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -445,6 +445,11 @@ impl<CT: ComponentType> Graph<CT> {
         Ok(())
     }
 
+    /// Returns `true` if this graph has a location on the disk where all updates are persisted to.
+    pub fn has_location(&self) -> bool {
+        self.location.is_some()
+    }
+
     /// Clear the graph content.
     /// This removes all node annotations, edges and knowledge about components.
     fn clear(&mut self) -> Result<()> {
@@ -810,8 +815,12 @@ impl<CT: ComponentType> Graph<CT> {
             if let Err(e) = result {
                 trace!("error occured while applying updates: {:?}", &e);
                 // load corpus from disk again
-                self.open(&location)?;
-                self.ensure_loaded_all()?;
+                if let Err(e) = self.open(&location).and_then(|_| self.ensure_loaded_all()) {
+                    // This is not the content at the location: never write it there
+                    self.clear()?;
+                    self.location = None;
+                    return Err(e);
+                }
                 return Err(e);
             }
             progress_callback("finished writing WAL update log");
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 1714e7f..93ea9d9 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1445,7 +1445,13 @@ impl CorpusStorage {
             let mut lock = db_entry.write()?;
             let db: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
 
-            db.apply_update(update, |_| {})?;
+            if let Err(e) = db.apply_update(update, |_| {}) {
+                if !db.has_location() {
+                    // The corpus could not be restored from the disk, try this again the next time it is used
+                    *lock = CacheEntry::NotLoaded;
+                }
+                return Err(e.into());
+            }
         }
         // start background thread to persists the results
         let active_background_workers = self.active_background_workers.clone();
-- 
2.43.0


From 21e126d6ea2ec7193edeb743a4fcf8a0ea0bfd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 52/76] fix: closing the storage must not wait for background
 writers that were aborted

---
 graphannis/src/annis/db/corpusstorage.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 93ea9d9..40a6248 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2855,11 +2855,24 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     Ok(lock_file)
 }
 
+/// Decreases the number of active background workers, even when the worker was aborted.
+struct ActiveWorker(Arc<(Mutex<usize>, Condvar)>);
+
+impl Drop for ActiveWorker {
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.0;
+        let mut nr_active_background_workers = lock.lock().unwrap_or_else(|e| e.into_inner());
+        *nr_active_background_workers -= 1;
+        cvar.notify_all();
+    }
+}
+
 fn sync_wal_updates_in_background(
     db_entry: Arc<RwLock<CacheEntry>>,
     active_background_workers: Arc<(Mutex<usize>, Condvar)>,
 ) -> Result<()> {
     trace!("Starting background thread to sync WAL updates");
+    let _active_worker = ActiveWorker(active_background_workers);
     let lock = db_entry.read()?;
     if let Ok(db) = get_read_or_error(&lock) {
         let db: &AnnotationGraph = db;
@@ -2869,9 +2882,5 @@ fn sync_wal_updates_in_background(
             trace!("Finished background thread to sync WAL updates");
         }
     }
-    let (lock, cvar) = &*active_background_workers;
-    let mut nr_active_background_workers = lock.lock()?;
-    *nr_active_background_workers -= 1;
-    cvar.notify_all();
     Ok(())
 }
-- 
2.43.0


From 5bc1270869f41baee92100bdd9c3dd935304675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 53/76] fix: do not damage the corpus configuration when
 writing it fails

---
 graphannis/src/annis/db/corpusstorage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 40a6248..1fd7b64 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -540,7 +540,10 @@ impl CorpusStorage {
             corpus_name,
             &corpus_config_path.to_string_lossy()
         );
-        std::fs::write(corpus_config_path, toml::to_string(&config)?)?;
+        // Only replace an existing configuration when the new one was written completely
+        let temporary_path = db_path.join("corpus-config.toml.tmp");
+        std::fs::write(&temporary_path, toml::to_string(&config)?)?;
+        std::fs::rename(temporary_path, corpus_config_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 5c436254820fd2f5ee98af2be8fb18f778487267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:52 +0000
Subject: [PATCH 54/76] fix: keep linked files and exported corpora inside of
 their directories

---
 graphannis/src/annis/db/corpusstorage.rs | 101 +++++++++++++++++------
 1 file changed, 78 insertions(+), 23 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 1fd7b64..a28f184 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -991,7 +991,10 @@ impl CorpusStorage {
             })?,
             ImportFormat::GraphML => {
                 let orig_corpus_name = if let Some(file_name) = path.file_stem() {
-                    file_name.to_string_lossy().to_string()
+                    // The corpus name is escaped when exporting the corpus
+                    percent_decode_str(&file_name.to_string_lossy())
+                        .decode_utf8_lossy()
+                        .to_string()
                 } else {
                     "UnknownCorpus".to_string()
                 };
@@ -1122,12 +1125,18 @@ impl CorpusStorage {
         for node in file_nodes? {
             // Get the linked file for this node
             if let Some(original_path) = node_annos.get_value_for_item(&node, &linked_file_key)? {
-                let original_path = old_base_path.join(PathBuf::from(original_path.as_ref()));
-                if original_path.is_file()
+                // Only files at the imported location are part of the corpus
+                let original_path = Path::new(original_path.as_ref());
+                let original_path = original_path
+                    .strip_prefix(&old_base_path)
+                    .unwrap_or(original_path);
+                if is_path_inside_directory(original_path)
+                    && let original_path = old_base_path.join(original_path)
+                    && original_path.is_file()
                     && let Some(node_name) = node_annos.get_value_for_item(&node, &NODE_NAME_KEY)?
                 {
                     // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(node_name.as_ref());
+                    let new_path = new_base_path.join(linked_file_path(&node_name));
                     debug!(
                         "Copying file from {} to {}",
                         original_path.as_path().to_string_lossy(),
@@ -1187,7 +1196,9 @@ impl CorpusStorage {
                     Err(e) => Err(e),
                 })
                 .filter_map_ok(move |(node_name, file_path_value)| {
-                    if let (Some(node_name), Some(file_path_value)) = (node_name, file_path_value) {
+                    if let (Some(node_name), Some(file_path_value)) = (node_name, file_path_value)
+                        && is_path_inside_directory(Path::new(file_path_value.as_ref()))
+                    {
                         return Some((
                             node_name.to_string(),
                             base_path.join(file_path_value.to_string()),
@@ -1208,13 +1219,14 @@ impl CorpusStorage {
         new_base_path: &Path,
         graph: &AnnotationGraph,
     ) -> Result<()> {
+        let files_dir = self.corpus_directory_on_disk(corpus_name)?.join("files");
         if let Some(it_files) = self.get_linked_files(corpus_name, graph)? {
+            let files_dir = files_dir.canonicalize()?;
             for file in it_files {
-                let (node_name, original_path) = file?;
-                let node_name: String = node_name;
+                let (_node_name, original_path) = file?;
                 if original_path.is_file() {
-                    // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(&node_name);
+                    // Use the relative path the exported annotation links to
+                    let new_path = new_base_path.join(original_path.strip_prefix(&files_dir)?);
                     if let Some(parent) = new_path.parent() {
                         std::fs::create_dir_all(parent)?;
                     }
@@ -1289,10 +1301,11 @@ impl CorpusStorage {
             .large_file(true);
 
         let mut base_path = PathBuf::default();
+        let file_name = escape_corpus_name(corpus_name);
         if use_corpus_subdirectory {
-            base_path.push(corpus_name);
+            base_path.push(file_name.as_ref());
         }
-        let path_in_zip = base_path.join(format!("{}.graphml", corpus_name));
+        let path_in_zip = base_path.join(format!("{}.graphml", file_name));
         zip.start_file(path_in_zip.to_string_lossy(), options)?;
 
         let entry = self.get_loaded_entry(corpus_name, false, false)?;
@@ -1323,12 +1336,20 @@ impl CorpusStorage {
         )?;
 
         // Insert all linked files into the ZIP file
+        let files_dir = self.corpus_directory_on_disk(corpus_name)?.join("files");
         if let Some(it_files) = self.get_linked_files(corpus_name.as_ref(), graph)? {
+            let files_dir = files_dir.canonicalize()?;
+            let mut written_files = HashSet::new();
             for file in it_files {
-                let (node_name, original_path) = file?;
-                let node_name: String = node_name;
+                let (_node_name, original_path) = file?;
+                // Several nodes can link to the same file and the linked file might not exist
+                if !original_path.is_file() || !written_files.insert(original_path.clone()) {
+                    continue;
+                }
 
-                zip.start_file(base_path.join(&node_name).to_string_lossy(), options)?;
+                // Use the relative path the exported annotation links to
+                let path_in_zip = base_path.join(original_path.strip_prefix(&files_dir)?);
+                zip.start_file(path_in_zip.to_string_lossy(), options)?;
                 let file_to_copy = File::open(original_path)?;
                 let mut reader = BufReader::new(file_to_copy);
                 std::io::copy(&mut reader, zip)?;
@@ -1364,13 +1385,14 @@ impl CorpusStorage {
                 let use_corpus_subdirectory = corpora.len() > 1;
                 for corpus_name in corpora {
                     let mut path = PathBuf::from(path);
+                    let file_name = escape_corpus_name(corpus_name.as_ref());
                     if use_corpus_subdirectory {
                         // Use a sub-directory with the corpus name to avoid conflicts with the
                         // linked files
-                        path.push(corpus_name.as_ref());
+                        path.push(file_name.as_ref());
                     };
                     std::fs::create_dir_all(&path)?;
-                    path.push(format!("{}.graphml", corpus_name.as_ref()));
+                    path.push(format!("{}.graphml", file_name));
                     self.export_corpus_graphml(corpus_name.as_ref(), &path)?;
                 }
             }
@@ -2596,14 +2618,11 @@ impl CorpusStorage {
     }
 
     fn corpus_directory_on_disk(&self, corpus_name: &str) -> Result<PathBuf> {
-        let escaped_corpus_name: Cow<str> = match corpus_name {
+        if corpus_name.is_empty() {
             // The directory would be the one of the corpus storage itself
-            "" => return Err(CorpusStorageError::EmptyCorpusName.into()),
-            // These names have a special meaning as directory name
-            "." => "%2E".into(),
-            ".." => "%2E%2E".into(),
-            _ => utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into(),
-        };
+            return Err(CorpusStorageError::EmptyCorpusName.into());
+        }
+        let escaped_corpus_name = escape_corpus_name(corpus_name);
         let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), &escaped_corpus_name]
             .iter()
             .collect();
@@ -2659,6 +2678,42 @@ impl Drop for CorpusStorage {
     }
 }
 
+/// Escape the corpus name so it can be used as name of a file or directory.
+fn escape_corpus_name(corpus_name: &str) -> Cow<'_, str> {
+    match corpus_name {
+        // These names have a special meaning as directory name
+        "." => "%2E".into(),
+        ".." => "%2E%2E".into(),
+        _ => utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into(),
+    }
+}
+
+/// Returns true if this is a relative path to something inside the directory it is appended to.
+fn is_path_inside_directory(path: &Path) -> bool {
+    !path.as_os_str().is_empty()
+        && path
+            .components()
+            .all(|c| matches!(c, std::path::Component::Normal(_)))
+}
+
+/// Sub-directory for linked files of nodes whose name can't be used as relative path.
+const ESCAPED_LINKED_FILES: &str = "%escaped";
+
+/// Returns the path of a linked file relative to the directory with all linked files of the corpus.
+fn linked_file_path(node_name: &str) -> PathBuf {
+    let path = Path::new(node_name);
+    // Different node names (like "a/b" and "a//b") must not be the same path
+    let is_normalized = path.components().collect::<PathBuf>().as_os_str() == path.as_os_str();
+    if is_path_inside_directory(path)
+        && is_normalized
+        && !path.starts_with(ESCAPED_LINKED_FILES)
+    {
+        path.to_path_buf()
+    } else {
+        Path::new(ESCAPED_LINKED_FILES).join(escape_corpus_name(node_name).as_ref())
+    }
+}
+
 /// Returns the sub-directory of the corpus directory from which the graph would be loaded.
 fn directory_with_last_saved_graph(db_path: &Path) -> PathBuf {
     let backup = db_path.join("backup");
-- 
2.43.0


From 1ea28a7aebc3bce280baebc96fd1b5c02c0a4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:08 +0000
Subject: [PATCH 55/76] fix: relANNIS import only links files of the imported
 corpus

---
 graphannis/src/annis/db/relannis.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index e05e93c..642b12d 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -728,6 +728,14 @@ fn add_external_data_files(
     // Toplevel corpus files are located directly in the ExtData folder,
     // files assigned to documents are in a sub-folder with the document name.
     if let Some(document) = document {
+        // The document name must not point outside of the ExtData folder
+        if document.is_empty()
+            || !Path::new(document)
+                .components()
+                .all(|c| matches!(c, std::path::Component::Normal(_)))
+        {
+            return Ok(());
+        }
         ext_data.push(document);
     }
     if ext_data.is_dir() {
-- 
2.43.0


From 5704e30b47a83b37a0e7189107ef023e94b0dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 56/76] fix: imports must not change existing corpora when they
 fail and report all errors

---
 graphannis/src/annis/db/corpusstorage.rs | 214 ++++++++++++++++++-----
 1 file changed, 166 insertions(+), 48 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index a28f184..8e11ff0 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -440,6 +440,8 @@ impl CorpusStorage {
             active_background_workers,
         };
 
+        clean_up_interrupted_changes(&cs.db_dir)?;
+
         Ok(cs)
     }
 
@@ -470,6 +472,8 @@ impl CorpusStorage {
             active_background_workers,
         };
 
+        clean_up_interrupted_changes(&cs.db_dir)?;
+
         Ok(cs)
     }
 
@@ -510,6 +514,10 @@ impl CorpusStorage {
             if ftype.is_dir() && has_saved_graph(&c_dir.path()) {
                 let directory_name = c_dir.file_name();
                 let corpus_name = directory_name.to_string_lossy();
+                if corpus_name.starts_with('#') {
+                    // Not a corpus since this character would be escaped
+                    continue;
+                }
                 // Use the decoded corpus name instead of the directory name
                 let corpus_name = percent_decode_str(&corpus_name);
                 corpora.push(corpus_name.decode_utf8_lossy().to_string());
@@ -870,33 +878,45 @@ impl CorpusStorage {
             }
         }
 
-        let mut corpus_names = Vec::new();
+        let mut prepared_corpora = Vec::new();
 
         // Import all relANNIS files
         for p in relannis_files {
             info!("Importing relANNIS corpus from {}", p.to_string_lossy());
-            let name = self.import_from_fs(
+            prepared_corpora.push(self.prepare_import(
                 &p,
                 ImportFormat::RelANNIS,
                 None,
                 disk_based,
                 overwrite_existing,
                 &progress_callback,
-            )?;
-            corpus_names.push(name);
+            )?);
         }
         // Import all GraphML files
         for p in graphannis_files {
             info!("Importing corpus from {}", p.to_string_lossy());
-            let name = self.import_from_fs(
+            prepared_corpora.push(self.prepare_import(
                 &p,
                 ImportFormat::GraphML,
                 None,
                 disk_based,
                 overwrite_existing,
                 &progress_callback,
-            )?;
-            corpus_names.push(name);
+            )?);
+        }
+
+        // All corpora could be read, so add them
+        if !overwrite_existing {
+            let mut new_names = HashSet::new();
+            for prepared_corpus in prepared_corpora.iter() {
+                if !new_names.insert(&prepared_corpus.name) {
+                    return Err(GraphAnnisError::CorpusExists(prepared_corpus.name.clone()));
+                }
+            }
+        }
+        let mut corpus_names = Vec::new();
+        for prepared_corpus in prepared_corpora {
+            corpus_names.push(self.add_prepared_corpus(prepared_corpus, overwrite_existing)?);
         }
 
         // Delete temporary directory
@@ -978,6 +998,30 @@ impl CorpusStorage {
         overwrite_existing: bool,
         progress_callback: F,
     ) -> Result<String>
+    where
+        F: Fn(&str),
+    {
+        let prepared_corpus = self.prepare_import(
+            path,
+            format,
+            corpus_name,
+            disk_based,
+            overwrite_existing,
+            progress_callback,
+        )?;
+        self.add_prepared_corpus(prepared_corpus, overwrite_existing)
+    }
+
+    /// Reads the corpus and writes it completely to a temporary directory.
+    fn prepare_import<F>(
+        &self,
+        path: &Path,
+        format: ImportFormat,
+        corpus_name: Option<String>,
+        disk_based: bool,
+        overwrite_existing: bool,
+        progress_callback: F,
+    ) -> Result<PreparedCorpus>
     where
         F: Fn(&str),
     {
@@ -1020,49 +1064,26 @@ impl CorpusStorage {
             }
         };
 
-        let r = graph.ensure_loaded_all();
-        if let Err(e) = r {
-            error!(
-                "Some error occurred when attempting to load components from disk: {:?}",
-                e
-            );
-        }
+        graph.ensure_loaded_all()?;
 
         self.update_corpus_size_info(&mut config, &graph);
 
         let corpus_name = corpus_name.unwrap_or(orig_name);
         let db_path = self.corpus_directory_on_disk(&corpus_name)?;
 
-        let mut cache_lock = self.lock_cache_with_unused_corpus(&corpus_name)?;
-        let cache = &mut *cache_lock;
-
-        // make sure the cache is not too large before adding the new corpus
-        check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![])?;
-
-        // remove any possible old corpus
-        if overwrite_existing {
-            cache.remove(&corpus_name);
-
-            if db_path.is_dir()
-                && let Err(e) = std::fs::remove_dir_all(&db_path)
-            {
-                error!("Error when removing existing files {}", e);
-            }
-        } else if cache.contains_key(&corpus_name) || db_path.is_dir() {
+        if !overwrite_existing && has_saved_graph(&db_path) {
             return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
         }
 
-        if let Err(e) = std::fs::create_dir_all(&db_path) {
-            error!(
-                "Can't create directory {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        // An existing corpus must not be changed when the new one can't be written completely
+        let directory = tempfile::Builder::new()
+            .prefix(TEMPORARY_DIRECTORY_PREFIX)
+            .tempdir_in(&self.db_dir)?;
+        let new_db_path = directory.path().join(IMPORTED_CORPUS_DIRECTORY);
 
         info!("Copying linked files for corpus {}", corpus_name);
         let current_dir = PathBuf::from(".");
-        let files_dir = db_path.join("files");
+        let files_dir = new_db_path.join("files");
         std::fs::create_dir_all(&files_dir)?;
         let old_base_path = path
             .parent()
@@ -1070,19 +1091,11 @@ impl CorpusStorage {
             .unwrap_or(&current_dir);
         self.copy_linked_files_and_update_references(old_base_path, &files_dir, &mut graph)?;
 
-        // save to its location
         info!("Saving corpus {} to disk", corpus_name);
-        let save_result = graph.save_to(&db_path);
-        if let Err(e) = save_result {
-            error!(
-                "Can't save corpus to {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        graph.save_to(&new_db_path)?;
 
         // Use the imported/generated/default corpus configuration and store it in our graph directory
-        let corpus_config_path = db_path.join("corpus-config.toml");
+        let corpus_config_path = new_db_path.join("corpus-config.toml");
         info!(
             "Saving corpus configuration file for corpus {} to {}",
             corpus_name,
@@ -1090,6 +1103,61 @@ impl CorpusStorage {
         );
         std::fs::write(corpus_config_path, toml::to_string(&config)?)?;
 
+        Ok(PreparedCorpus {
+            name: corpus_name,
+            directory,
+        })
+    }
+
+    /// Move an imported corpus to its location and make it available.
+    fn add_prepared_corpus(
+        &self,
+        prepared_corpus: PreparedCorpus,
+        overwrite_existing: bool,
+    ) -> Result<String> {
+        let corpus_name = prepared_corpus.name;
+        let new_db_path = prepared_corpus
+            .directory
+            .path()
+            .join(IMPORTED_CORPUS_DIRECTORY);
+        let db_path = self.corpus_directory_on_disk(&corpus_name)?;
+
+        let mut cache_lock = self.lock_cache_with_unused_corpus(&corpus_name)?;
+        let cache = &mut *cache_lock;
+
+        // make sure the cache is not too large before adding the new corpus
+        check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![])?;
+
+        if !overwrite_existing && (cache.contains_key(&corpus_name) || has_saved_graph(&db_path)) {
+            return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
+        }
+
+        // remove any possible old corpus
+        cache.remove(&corpus_name);
+        if db_path.is_dir() {
+            // Keep the old corpus until the new one has been moved to its location.
+            let replaced_path = self
+                .db_dir
+                .join(REPLACED_CORPORA_DIRECTORY)
+                .join(escape_corpus_name(&corpus_name).as_ref());
+            if replaced_path.is_dir() {
+                std::fs::remove_dir_all(&replaced_path)?;
+            }
+            std::fs::create_dir_all(self.db_dir.join(REPLACED_CORPORA_DIRECTORY))?;
+            std::fs::rename(&db_path, &replaced_path)?;
+            if let Err(e) = std::fs::rename(&new_db_path, &db_path) {
+                std::fs::rename(&replaced_path, &db_path)?;
+                return Err(e.into());
+            }
+            if let Err(e) = std::fs::remove_dir_all(&replaced_path) {
+                warn!("Error when removing existing files {}", e);
+            }
+            // The directory is not empty if removing any replaced corpus failed
+            let _ = std::fs::remove_dir(self.db_dir.join(REPLACED_CORPORA_DIRECTORY));
+        } else {
+            std::fs::rename(&new_db_path, &db_path)?;
+        }
+
         // make it known to the cache
         cache.insert(
             corpus_name.clone(),
@@ -2678,6 +2746,56 @@ impl Drop for CorpusStorage {
     }
 }
 
+/// Prefix of directories inside the data directory with incomplete data. Since this character is escaped in corpus
+/// names, there can't be a conflict with the directory of a corpus.
+const TEMPORARY_DIRECTORY_PREFIX: &str = "#temporary-";
+
+/// Sub-directory of the data directory with corpora which are replaced by imported ones.
+const REPLACED_CORPORA_DIRECTORY: &str = "#replaced";
+
+/// Sub-directory of the temporary directory with an imported corpus.
+const IMPORTED_CORPUS_DIRECTORY: &str = "corpus";
+
+/// An imported corpus which has been written to a temporary directory inside the data directory.
+struct PreparedCorpus {
+    name: String,
+    directory: tempfile::TempDir,
+}
+
+/// Restore corpora and remove temporary files when changing the corpora in the data directory was interrupted.
+fn clean_up_interrupted_changes(db_dir: &Path) -> Result<()> {
+    let replaced_corpora = db_dir.join(REPLACED_CORPORA_DIRECTORY);
+    if replaced_corpora.is_dir() {
+        for entry in replaced_corpora.read_dir()? {
+            let entry = entry?;
+            let db_path = db_dir.join(entry.file_name());
+            if db_path.is_dir() {
+                std::fs::remove_dir_all(entry.path())?;
+            } else {
+                std::fs::rename(entry.path(), db_path)?;
+            }
+        }
+        std::fs::remove_dir(replaced_corpora)?;
+    }
+    for entry in db_dir.read_dir()? {
+        let entry = entry?;
+        if entry.file_type()?.is_dir()
+            && entry
+                .file_name()
+                .to_string_lossy()
+                .starts_with(TEMPORARY_DIRECTORY_PREFIX)
+            && let Err(e) = std::fs::remove_dir_all(entry.path())
+        {
+            warn!(
+                "Could not remove temporary directory {}: {}",
+                entry.path().to_string_lossy(),
+                e
+            );
+        }
+    }
+    Ok(())
+}
+
 /// Escape the corpus name so it can be used as name of a file or directory.
 fn escape_corpus_name(corpus_name: &str) -> Cow<'_, str> {
     match corpus_name {
-- 
2.43.0


From b31230d392fef60f6a1c0dd0e8cc0365757ef3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 57/76] fix: deleting a corpus must not leave a part of it when
 it is interrupted

---
 graphannis/src/annis/db/corpusstorage.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 8e11ff0..1064875 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1496,12 +1496,19 @@ impl CorpusStorage {
         let db_entry = cache.remove(corpus_name);
 
         if db_path.is_dir() {
-            std::fs::remove_dir_all(db_path).map_err(|e| {
+            // Removing the files can be interrupted, so make sure the corpus is not visible anymore
+            let directory = tempfile::Builder::new()
+                .prefix(TEMPORARY_DIRECTORY_PREFIX)
+                .tempdir_in(&self.db_dir)?;
+            std::fs::rename(db_path, directory.path().join("corpus")).map_err(|e| {
                 CorpusStorageError::RemoveFileForCorpus {
                     corpus: corpus_name.to_string(),
                     source: e,
                 }
             })?;
+            if let Err(e) = directory.close() {
+                warn!("Could not remove all files of corpus {corpus_name}: {e}");
+            }
 
             Ok(true)
         } else if db_entry.is_some() {
-- 
2.43.0


From 67446ce641625feafcda8b2ab62b9b95f8bf4184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:16 +0000
Subject: [PATCH 58/76] fix: report errors when listing the corpora

---
 graphannis/src/annis/db/corpusstorage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 1064875..41297d7 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -479,7 +479,7 @@ impl CorpusStorage {
 
     /// List  all available corpora in the corpus storage.
     pub fn list(&self) -> Result<Vec<CorpusInfo>> {
-        let names: Vec<String> = self.list_from_disk().unwrap_or_default();
+        let names: Vec<String> = self.list_from_disk()?;
         let mut result: Vec<CorpusInfo> = vec![];
 
         for n in names {
-- 
2.43.0


From ab1b30382fb35a7248cfc1167b95e248ed600a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 59/76] fix: report truncated GraphML documents instead of
 importing a part of them

---
 core/src/graph/serialization/graphml.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index 3d35567..1817343 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -711,6 +711,14 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                 level -= 1;
             }
             Event::Eof => {
+                if level > 0 {
+                    // The document has been truncated, do not import just a part of it
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::UnexpectedEof,
+                        "unexpected end of GraphML document: not all elements are closed",
+                    )
+                    .into());
+                }
                 break;
             }
             _ => {}
-- 
2.43.0


From 769f991c4c9cf7df2f63671057d322ff7ab5a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:44 +0000
Subject: [PATCH 60/76] fix: linked files must not be mistaken for corpora in
 exported ZIP files

---
 graphannis/src/annis/db/corpusstorage.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 41297d7..06da5ce 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2829,13 +2829,21 @@ fn linked_file_path(node_name: &str) -> PathBuf {
     let path = Path::new(node_name);
     // Different node names (like "a/b" and "a//b") must not be the same path
     let is_normalized = path.components().collect::<PathBuf>().as_os_str() == path.as_os_str();
+    // These files would be imported as corpus if they are part of an exported ZIP file
+    let is_corpus_file = path
+        .extension()
+        .is_some_and(|ext| ext.eq_ignore_ascii_case("graphml"))
+        || path
+            .file_name()
+            .is_some_and(|name| name == "corpus.annis" || name == "corpus.tab");
     if is_path_inside_directory(path)
         && is_normalized
+        && !is_corpus_file
         && !path.starts_with(ESCAPED_LINKED_FILES)
     {
         path.to_path_buf()
     } else {
-        Path::new(ESCAPED_LINKED_FILES).join(escape_corpus_name(node_name).as_ref())
+        Path::new(ESCAPED_LINKED_FILES).join(format!("{}.file", escape_corpus_name(node_name)))
     }
 }
 
-- 
2.43.0


From 9d79e86e00e4c8e82d7165606cacad7b8c275594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:54 +0000
Subject: [PATCH 61/76] fix: linked files with paths like ./file or with
 backslash are part of the corpus

---
 graphannis/src/annis/db/corpusstorage.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 06da5ce..5368734 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2815,10 +2815,13 @@ fn escape_corpus_name(corpus_name: &str) -> Cow<'_, str> {
 
 /// Returns true if this is a relative path to something inside the directory it is appended to.
 fn is_path_inside_directory(path: &Path) -> bool {
-    !path.as_os_str().is_empty()
-        && path
-            .components()
-            .all(|c| matches!(c, std::path::Component::Normal(_)))
+    path.file_name().is_some()
+        && path.components().all(|c| {
+            matches!(
+                c,
+                std::path::Component::Normal(_) | std::path::Component::CurDir
+            )
+        })
 }
 
 /// Sub-directory for linked files of nodes whose name can't be used as relative path.
@@ -2827,8 +2830,14 @@ const ESCAPED_LINKED_FILES: &str = "%escaped";
 /// Returns the path of a linked file relative to the directory with all linked files of the corpus.
 fn linked_file_path(node_name: &str) -> PathBuf {
     let path = Path::new(node_name);
-    // Different node names (like "a/b" and "a//b") must not be the same path
-    let is_normalized = path.components().collect::<PathBuf>().as_os_str() == path.as_os_str();
+    // Different node names (like "a/b", "a//b" and "./a/b") must not be the same path and "\\" is a separator in ZIP files
+    let is_normalized = path
+        .components()
+        .filter(|c| matches!(c, std::path::Component::Normal(_)))
+        .collect::<PathBuf>()
+        .as_os_str()
+        == path.as_os_str()
+        && !node_name.contains('\\');
     // These files would be imported as corpus if they are part of an exported ZIP file
     let is_corpus_file = path
         .extension()
-- 
2.43.0


From 5a9fdd1e1327d7a95214237de710c6ac8cf365d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 62/76] fix: relANNIS import must connect documents and texts
 with a toplevel corpus whose name is escaped or which has texts

---
 graphannis/src/annis/db/relannis.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index 642b12d..23e82d9 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -2031,7 +2031,9 @@ fn get_corpus_path(cid: u32, corpus_table: &ParsedCorpusTable) -> Result<String>
         .corpus_by_id
         .get(&cid)
         .ok_or(RelAnnisError::CorpusNotFound(cid))?;
-    result.push('/');
+    if !result.is_empty() {
+        result.push('/');
+    }
     result.push_str(&corpus.normalized_name);
     Ok(result)
 }
@@ -2047,14 +2049,18 @@ fn add_subcorpora(
 ) -> Result<()> {
     // add the toplevel corpus as node
     {
+        // All references to this node use the escaped name
+        let toplevel_node_name =
+            utf8_percent_encode(&corpus_table.toplevel_corpus_name, NODE_NAME_ENCODE_SET)
+                .to_string();
         updates.add_event(UpdateEvent::AddNode {
-            node_name: corpus_table.toplevel_corpus_name.as_str().into(),
+            node_name: toplevel_node_name.clone(),
             node_type: "corpus".into(),
         })?;
 
         // save the relANNIS version as meta data attribute on the toplevel corpus
         updates.add_event(UpdateEvent::AddNodeLabel {
-            node_name: corpus_table.toplevel_corpus_name.as_str().into(),
+            node_name: toplevel_node_name.clone(),
             anno_ns: ANNIS_NS.to_owned(),
             anno_name: "relannis-version".to_owned(),
             anno_value: if is_annis_33 {
@@ -2076,7 +2082,7 @@ fn add_subcorpora(
             for ((entry_cid, anno_key), val) in corpus_id_to_annos.range(start_key..) {
                 if entry_cid == cid {
                     updates.add_event(UpdateEvent::AddNodeLabel {
-                        node_name: corpus_table.toplevel_corpus_name.clone(),
+                        node_name: toplevel_node_name.clone(),
                         anno_ns: anno_key.ns.clone(),
                         anno_name: anno_key.name.clone(),
                         anno_value: val.into(),
@@ -2085,7 +2091,7 @@ fn add_subcorpora(
                     break;
                 }
             }
-            add_external_data_files(path, &corpus_table.toplevel_corpus_name, None, updates)?;
+            add_external_data_files(path, &toplevel_node_name, None, updates)?;
         }
     }
 
-- 
2.43.0


From 01db998798d660b6bfba17980824301247e3a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 63/76] fix: relANNIS import lost the last whitespace character
 before the first token

---
 graphannis/src/annis/db/relannis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index 23e82d9..cb68eb6 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -1284,7 +1284,7 @@ where
                     let mut covered_text_before =
                         std::string::String::with_capacity(token_left_char - current_text_offset);
                     let mut skipped_before_token = 0;
-                    for _ in current_text_offset..(token_left_char - 1) {
+                    for _ in current_text_offset..token_left_char {
                         if let Some(c) = text_char_it.next() {
                             covered_text_before.push(c);
                             skipped_before_token += 1;
-- 
2.43.0


From a264ba51f9cd3f00ff9a23341a6c051832c9d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 64/76] fix: relANNIS import panicked or did not return for
 unreasonable context steps

---
 graphannis/src/annis/db/relannis.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index cb68eb6..b9e2995 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -110,6 +110,9 @@ lazy_static! {
     ];
 }
 
+/// Maximum number of context sizes that can be chosen
+const MAX_CONTEXT_STEPS: usize = 1000;
+
 #[derive(Eq, PartialEq, PartialOrd, Ord, Hash, Clone, Debug, Serialize, Deserialize)]
 pub struct TextProperty {
     segmentation: String,
@@ -706,9 +709,12 @@ where
 
             if let "context-steps" = key
                 && let Ok(value) = value.parse::<usize>()
+                && value > 0
             {
+                // Do not try to list all steps if there are unreasonable many of them
                 config.context.sizes = (value..=config.context.max.unwrap_or(value))
                     .step_by(value)
+                    .take(MAX_CONTEXT_STEPS)
                     .collect();
             }
         }
-- 
2.43.0


From fc718628be1fd9d5c0e75f50a22f7ffe8912a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:51 +0000
Subject: [PATCH 65/76] fix: a corpus named like the lock file could not be
 imported

---
 graphannis/src/annis/db/corpusstorage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 5368734..5a13824 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2809,6 +2809,8 @@ fn escape_corpus_name(corpus_name: &str) -> Cow<'_, str> {
         // These names have a special meaning as directory name
         "." => "%2E".into(),
         ".." => "%2E%2E".into(),
+        // This file always exists in the data directory
+        DB_LOCK_FILE_NAME => "%64b.lock".into(),
         _ => utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into(),
     }
 }
-- 
2.43.0


From 380c84f11962fda247fab512bf23531cd785e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:24 +0000
Subject: [PATCH 66/76] fix: damaged files of a saved corpus must not abort the
 process

---
 core/src/annostorage/inmemory.rs    |  6 ++++--
 core/src/annostorage/ondisk.rs      | 20 +++++++++++---------
 core/src/graph/mod.rs               |  9 ++++++---
 core/src/graph/storage/disk_path.rs | 20 ++++++++++++--------
 core/src/graph/storage/mod.rs       |  8 ++++++--
 core/src/serializer.rs              | 17 +++++++++++++++++
 6 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index 9fb12e5..3810962 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -2,6 +2,7 @@ use super::{AnnotationStorage, EdgeAnnotationStorage, Match, NodeAnnotationStora
 use crate::annostorage::ValueSearch;
 use crate::errors::Result;
 use crate::graph::NODE_NAME_KEY;
+use crate::serializer::deserialize_from_file;
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::{self};
 use crate::{annostorage::symboltable::SymbolTable, errors::GraphAnnisCoreError};
@@ -992,8 +993,9 @@ where
                 source: e,
             }
         })?;
-        let mut reader = std::io::BufReader::new(f);
-        *self = bincode::deserialize_from(&mut reader)?;
+        let file_size = f.metadata()?.len();
+        let reader = std::io::BufReader::new(f);
+        *self = deserialize_from_file(reader, file_size)?;
 
         self.anno_keys.after_deserialization();
         self.anno_values.after_deserialization();
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 3cc427a..77e5dec 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -3,7 +3,7 @@ use crate::annostorage::symboltable::SymbolTable;
 use crate::annostorage::{Match, ValueSearch};
 use crate::errors::Result;
 use crate::graph::NODE_NAME_KEY;
-use crate::serializer::{FixedSizeKeySerializer, KeySerializer};
+use crate::serializer::{FixedSizeKeySerializer, KeySerializer, deserialize_from_file};
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::disk_collections::{DiskMap, EvictionStrategy};
 use crate::{try_as_boxed_iter, util};
@@ -171,11 +171,12 @@ where
             // load internal helper fields
             let custom_path = path.join("custom.bin");
             let f = std::fs::File::open(custom_path)?;
+            let file_size = f.metadata()?.len();
             let mut reader = std::io::BufReader::new(f);
-            result.largest_item = bincode::deserialize_from(&mut reader)?;
-            result.anno_key_sizes = bincode::deserialize_from(&mut reader)?;
-            result.histogram_bounds = bincode::deserialize_from(&mut reader)?;
-            result.anno_key_symbols = bincode::deserialize_from(&mut reader)?;
+            result.largest_item = deserialize_from_file(&mut reader, file_size)?;
+            result.anno_key_sizes = deserialize_from_file(&mut reader, file_size)?;
+            result.histogram_bounds = deserialize_from_file(&mut reader, file_size)?;
+            result.anno_key_symbols = deserialize_from_file(&mut reader, file_size)?;
             result.anno_key_symbols.after_deserialization();
 
             Ok(result)
@@ -1182,11 +1183,12 @@ where
 
         // load internal helper fields
         let f = std::fs::File::open(location.join("custom.bin"))?;
+        let file_size = f.metadata()?.len();
         let mut reader = std::io::BufReader::new(f);
-        self.largest_item = bincode::deserialize_from(&mut reader)?;
-        self.anno_key_sizes = bincode::deserialize_from(&mut reader)?;
-        self.histogram_bounds = bincode::deserialize_from(&mut reader)?;
-        self.anno_key_symbols = bincode::deserialize_from(&mut reader)?;
+        self.largest_item = deserialize_from_file(&mut reader, file_size)?;
+        self.anno_key_sizes = deserialize_from_file(&mut reader, file_size)?;
+        self.histogram_bounds = deserialize_from_file(&mut reader, file_size)?;
+        self.anno_key_symbols = deserialize_from_file(&mut reader, file_size)?;
         self.anno_key_symbols.after_deserialization();
 
         Ok(())
diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 218f8a0..51942aa 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -6,6 +6,7 @@ use crate::{
     annostorage::{AnnotationStorage, NodeAnnotationStorage, ValueSearch},
     errors::Result,
     graph::storage::{GraphStorage, WriteableGraphStorage, registry},
+    serializer::deserialize_from_file,
 };
 use crate::{
     errors::GraphAnnisCoreError,
@@ -190,8 +191,9 @@ fn write_update_log(location: &Path, u: &GraphUpdate) -> Result<()> {
     let log_path = output_path.join("update_log.bin");
 
     let existing_updates = if log_path.is_file() {
-        let mut all_updates: GraphUpdate =
-            bincode::deserialize_from(std::fs::File::open(&log_path)?)?;
+        let log_file = std::fs::File::open(&log_path)?;
+        let log_size = log_file.metadata()?.len();
+        let mut all_updates: GraphUpdate = deserialize_from_file(log_file, log_size)?;
         for update_event in u.iter()? {
             let (_, event) = update_event?;
             all_updates.add_event(event)?;
@@ -408,7 +410,8 @@ impl<CT: ComponentType> Graph<CT> {
         if logfile_exists {
             // apply any outstanding log file updates
             let log_reader = std::fs::File::open(&log_path)?;
-            let mut update = bincode::deserialize_from(log_reader)?;
+            let log_size = log_reader.metadata()?.len();
+            let mut update = deserialize_from_file(log_reader, log_size)?;
             self.apply_update_in_memory(&mut update, true, |_| {})?;
         } else {
             self.current_change_id = 0;
diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index 00e237d..dfef15e 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -10,7 +10,7 @@ use transient_btree_index::BtreeConfig;
 use crate::{
     annostorage::{AnnotationStorage, ondisk::AnnoStorageImpl},
     dfs::CycleSafeDFS,
-    errors::Result,
+    errors::{GraphAnnisCoreError, Result},
     try_as_boxed_iter,
     types::{Edge, NodeID},
     util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy},
@@ -63,7 +63,7 @@ impl DiskPathStorage {
     }
 
     fn get_outgoing_edge(&self, node: NodeID) -> Result<Option<NodeID>> {
-        if node > self.max_node_id()? {
+        if node >= self.number_of_entries() {
             return Ok(None);
         }
         let offset = offset_in_file(node) as usize;
@@ -79,13 +79,13 @@ impl DiskPathStorage {
         }
     }
 
-    fn max_node_id(&self) -> Result<u64> {
-        let number_of_entries = self.paths_file_size / (ENTRY_SIZE as u64);
-        Ok(number_of_entries - 1)
+    /// Number of node entries in the file, which is one more than the largest node ID.
+    fn number_of_entries(&self) -> u64 {
+        self.paths_file_size / (ENTRY_SIZE as u64)
     }
 
     fn path_for_node(&self, node: NodeID) -> Result<Vec<NodeID>> {
-        if node > self.max_node_id()? {
+        if node >= self.number_of_entries() {
             return Ok(Vec::default());
         }
         let offset = offset_in_file(node) as usize;
@@ -96,6 +96,11 @@ impl DiskPathStorage {
             // No outgoing edges
             Ok(Vec::default())
         } else {
+            if length as usize > MAX_DEPTH {
+                return Err(GraphAnnisCoreError::Other(
+                    format!("Path of node {node} has an invalid length {length}").into(),
+                ));
+            }
             // Add all path elements
             let mut result = Vec::with_capacity(length as usize);
             for i in 0..length {
@@ -161,9 +166,8 @@ impl EdgeContainer for DiskPathStorage {
     }
 
     fn source_nodes<'a>(&'a self) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
-        let max_node_id = try_as_boxed_iter!(self.max_node_id());
         // ignore node entries with empty path in result
-        let it = (0..=max_node_id)
+        let it = (0..self.number_of_entries())
             .map(move |n| {
                 let offset = offset_in_file(n) as usize;
                 let view = node_path::View::new(&self.paths[offset..(offset + ENTRY_SIZE)]);
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 3549dff..c561399 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -13,6 +13,7 @@ use crate::annostorage::{EdgeAnnotationStorage, NodeAnnotationStorage};
 use crate::{
     annostorage::AnnotationStorage,
     errors::Result,
+    serializer::deserialize_from_file,
     types::{AnnoKey, Annotation, Edge, NodeID},
 };
 use itertools::Itertools;
@@ -246,9 +247,10 @@ where
 {
     let data_path = location.join(format!("{field_name}.bin"));
     let f_data = std::fs::File::open(data_path)?;
+    let file_size = f_data.metadata()?.len();
     let input = std::io::BufReader::new(f_data);
 
-    let result = bincode::deserialize_from(input)?;
+    let result = deserialize_from_file(input, file_size)?;
     Ok(result)
 }
 
@@ -264,9 +266,11 @@ pub fn load_statistics_from_location(location: &Path) -> Result<Option<GraphStat
         Some(stats)
     } else if legacy_stats_path_bin.is_file() {
         let f_stats = std::fs::File::open(legacy_stats_path_bin)?;
+        let file_size = f_stats.metadata()?.len();
         let input = std::io::BufReader::new(f_stats);
         // This is a legacy file which needs an older version of the struct
-        let legacy_stats: Option<legacy::GraphStatisticV1> = bincode::deserialize_from(input)?;
+        let legacy_stats: Option<legacy::GraphStatisticV1> =
+            deserialize_from_file(input, file_size)?;
         legacy_stats.map(|s| s.into())
     } else {
         None
diff --git a/core/src/serializer.rs b/core/src/serializer.rs
index 0c30e75..308acaa 100644
--- a/core/src/serializer.rs
+++ b/core/src/serializer.rs
@@ -2,6 +2,23 @@ use std::{convert::TryInto, error::Error};
 
 use serde_bytes::ByteBuf;
 
+/// Deserialize the next value of the file.
+///
+/// In contrast to [`bincode::deserialize_from`], a damaged file which states an implausible size
+/// for a string results in an error instead of trying to allocate the memory for it.
+pub(crate) fn deserialize_from_file<R, T>(mut reader: R, file_size: u64) -> bincode::Result<T>
+where
+    R: std::io::Read,
+    T: serde::de::DeserializeOwned,
+{
+    use bincode::Options;
+    bincode::DefaultOptions::new()
+        .with_fixint_encoding()
+        .allow_trailing_bytes()
+        .with_limit(file_size)
+        .deserialize_from(&mut reader)
+}
+
 pub type KeyVec = smallvec::SmallVec<[u8; 32]>;
 
 pub trait KeySerializer {
-- 
2.43.0


From 1f72e74ca11cf0bba4810f0e47d6778023de13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:16 +0000
Subject: [PATCH 67/76] fix: relANNIS import panicked for the largest possible
 pre-order of a corpus

---
 graphannis/src/annis/db/relannis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index b9e2995..497e95b 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -2119,7 +2119,7 @@ fn add_subcorpora(
                 node_type: "corpus".to_owned(),
             })?;
             // Only add the "annis:doc" label to leaf nodes of the corpus tree
-            if corpus.pre + 1 == corpus.post {
+            if corpus.pre.checked_add(1) == Some(corpus.post) {
                 updates.add_event(UpdateEvent::AddNodeLabel {
                     node_name: subcorpus_full_name.to_string(),
                     anno_ns: ANNIS_NS.to_owned(),
-- 
2.43.0


From 2f42d31b02f92aca79e642c3b9dfa35280c065fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:12 +0000
Subject: [PATCH 68/76] fix: empty queries, huge node references and huge
 distances in queries

---
 graphannis/src/annis/db/aql/mod.rs         |  2 +-
 graphannis/src/annis/db/aql/parser.lalrpop | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index dfaa29e..1c8b3ed 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -646,7 +646,7 @@ fn extract_location<'a>(
         }
         ParseError::UnrecognizedEof { .. } => {
             // set to end of query
-            let start = get_line_and_column_for_pos(input.len() - 1, &offsets);
+            let start = get_line_and_column_for_pos(input.len().saturating_sub(1), &offsets);
             Some(LineColumnRange { start, end: None })
         }
         ParseError::User { .. } => None,
diff --git a/graphannis/src/annis/db/aql/parser.lalrpop b/graphannis/src/annis/db/aql/parser.lalrpop
index dda68d1..aa75fad 100644
--- a/graphannis/src/annis/db/aql/parser.lalrpop
+++ b/graphannis/src/annis/db/aql/parser.lalrpop
@@ -312,7 +312,11 @@ NodeSearch : NodeSearchSpec = {
 /// Node references like `#1` (using the index of the node) or `#abc`
 /// (using explicit name for variable)
 NodeRef : ast::NodeRef = {
-    <v:NODE_REF> => ast::NodeRef::ID(v[1..].parse::<usize>().unwrap()),
+    <v:NODE_REF> => match v[1..].parse::<usize>() {
+        Ok(id) => ast::NodeRef::ID(id),
+        // There can't be a node with such a large number, so there won't be a variable for it
+        Err(_) => ast::NodeRef::Name(v[1..].to_string()),
+    },
     <v:VARIABLE_NODE_REF> => ast::NodeRef::Name(v[1..].to_string()),
 }
 
@@ -514,12 +518,12 @@ EdgeAnno: EdgeAnnoSearchSpec = {
 
 RangeSpec: ast::RangeSpec = {
     (",")? <min:DIGITS> "," <max:DIGITS> => ast::RangeSpec::Bound {
-        min_dist: min.parse().unwrap_or_default(), 
-        max_dist: max.parse().unwrap_or_default(),
+        min_dist: min.parse().unwrap_or(usize::MAX), 
+        max_dist: max.parse().unwrap_or(usize::MAX),
     },
     (",")? <exact:DIGITS> => ast::RangeSpec::Bound {
-        min_dist: exact.parse().unwrap_or_default(), 
-        max_dist: exact.parse().unwrap_or_default(),
+        min_dist: exact.parse().unwrap_or(usize::MAX), 
+        max_dist: exact.parse().unwrap_or(usize::MAX),
     },
     "*" => ast::RangeSpec::Unbound,
     
-- 
2.43.0


From f38f831de601f052f0b5b36c1c5bf203a447d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:42 +0000
Subject: [PATCH 69/76] fix: end a query when its timeout is reached

The search for nodes returned an endless sequence of timeout errors, which the
parallel nested loop join collected in memory without end. Report the timeout
once, also check it inside of nested loops, and don't lose an error of the
operands when there are no more candidates.
---
 graphannis/src/annis/db/aql/conjunction.rs    | 12 ++++--
 graphannis/src/annis/db/exec/nestedloop.rs    | 37 +++++++++++++++++++
 graphannis/src/annis/db/exec/nodesearch.rs    | 13 +++++++
 .../src/annis/db/exec/parallel/nestedloop.rs  | 31 +++++++++++++++-
 4 files changed, 89 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 8e7601e..1bd4d8f 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -180,6 +180,7 @@ fn create_index_join<'b>(
     }
 }
 
+#[allow(clippy::too_many_arguments)]
 fn create_join<'b>(
     db: &'b AnnotationGraph,
     config: &Config,
@@ -188,6 +189,7 @@ fn create_join<'b>(
     exec_right: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'b>,
     idx_left: usize,
     idx_right: usize,
+    timeout: TimeoutCheck,
 ) -> Result<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'b>> {
     if exec_right.as_nodesearch().is_some()
         && let BinaryOperator::Index(op) = op_entry.op
@@ -228,11 +230,13 @@ fn create_join<'b>(
     // use nested loop as "fallback"
     if config.use_parallel_joins {
         let join = parallel::nestedloop::NestedLoop::new(
-            op_entry, exec_left, exec_right, idx_left, idx_right,
+            op_entry, exec_left, exec_right, idx_left, idx_right, timeout,
         )?;
         Ok(Box::new(join))
     } else {
-        let join = NestedLoop::new(op_entry, exec_left, exec_right, idx_left, idx_right)?;
+        let join = NestedLoop::new(
+            op_entry, exec_left, exec_right, idx_left, idx_right, timeout,
+        )?;
         Ok(Box::new(join))
     }
 }
@@ -757,6 +761,7 @@ impl Conjunction {
             Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         >,
         helper: &mut ExecutionPlanHelper,
+        timeout: TimeoutCheck,
     ) -> Result<()> {
         let mut op: BinaryOperator<'a> = op_spec_entry
             .op
@@ -844,7 +849,7 @@ impl Conjunction {
                     .ok_or(GraphAnnisError::RHSOperandNotFound)?);
 
                 let join = create_join(
-                    g, config, op_entry, exec_left, exec_right, idx_left, idx_right,
+                    g, config, op_entry, exec_left, exec_right, idx_left, idx_right, timeout,
                 )?;
                 Ok(join)
             };
@@ -919,6 +924,7 @@ impl Conjunction {
                 config,
                 &mut output.component2exec,
                 &mut output.helper,
+                timeout,
             )?;
         }
 
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d596660..539fc8c 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -3,10 +3,14 @@ use graphannis_core::annostorage::MatchGroup;
 use super::{ExecutionNode, ExecutionNodeDesc};
 use crate::annis::db::aql::conjunction::BinaryOperatorEntry;
 use crate::annis::operator::{BinaryOperator, BinaryOperatorBase};
+use crate::annis::util::TimeoutCheck;
 use crate::errors::Result;
 use crate::try_as_option;
 use std::iter::Peekable;
 
+/// The timeout is checked each time after this number of candidate pairs have been tested.
+const TIMEOUT_CHECK_INTERVAL: usize = 1024;
+
 pub struct NestedLoop<'a> {
     outer: Peekable<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>>,
     inner: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
@@ -20,6 +24,10 @@ pub struct NestedLoop<'a> {
     desc: ExecutionNodeDesc,
 
     global_reflexivity: bool,
+
+    timeout: TimeoutCheck,
+    timeout_reached: bool,
+    nr_tested_candidates: usize,
 }
 
 impl<'a> NestedLoop<'a> {
@@ -29,6 +37,7 @@ impl<'a> NestedLoop<'a> {
         rhs: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         lhs_idx: usize,
         rhs_idx: usize,
+        timeout: TimeoutCheck,
     ) -> Result<NestedLoop<'a>> {
         let mut left_is_outer = true;
         if let (Some(desc_lhs), Some(desc_rhs)) = (lhs.get_desc(), rhs.get_desc())
@@ -71,6 +80,9 @@ impl<'a> NestedLoop<'a> {
                 pos_inner_cache: None,
                 left_is_outer,
                 global_reflexivity: op_entry.args.global_reflexivity,
+                timeout,
+                timeout_reached: false,
+                nr_tested_candidates: 0,
             };
             Ok(join)
         } else {
@@ -96,6 +108,9 @@ impl<'a> NestedLoop<'a> {
                 pos_inner_cache: None,
                 left_is_outer,
                 global_reflexivity: op_entry.args.global_reflexivity,
+                timeout,
+                timeout_reached: false,
+                nr_tested_candidates: 0,
             };
             Ok(join)
         }
@@ -112,6 +127,9 @@ impl Iterator for NestedLoop<'_> {
     type Item = Result<MatchGroup>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.timeout_reached {
+            return None;
+        }
         loop {
             if let Some(Ok(m_outer)) = self.outer.peek() {
                 if let Some(mut cache_pos) = self.pos_inner_cache {
@@ -119,6 +137,16 @@ impl Iterator for NestedLoop<'_> {
                         let m_inner = &self.inner_cache[cache_pos];
                         cache_pos += 1;
                         self.pos_inner_cache = Some(cache_pos);
+                        self.nr_tested_candidates += 1;
+                        if self
+                            .nr_tested_candidates
+                            .is_multiple_of(TIMEOUT_CHECK_INTERVAL)
+                            && let Err(e) = self.timeout.check()
+                        {
+                            self.timeout_reached = true;
+                            return Some(Err(e));
+                        }
+
                         let filter_true = if self.left_is_outer {
                             self.op
                                 .filter_match(&m_outer[self.outer_idx], &m_inner[self.inner_idx])
@@ -146,6 +174,15 @@ impl Iterator for NestedLoop<'_> {
                     for m_inner in &mut self.inner {
                         let mut m_inner = try_as_option!(m_inner);
                         self.inner_cache.push(m_inner.clone());
+                        self.nr_tested_candidates += 1;
+                        if self
+                            .nr_tested_candidates
+                            .is_multiple_of(TIMEOUT_CHECK_INTERVAL)
+                            && let Err(e) = self.timeout.check()
+                        {
+                            self.timeout_reached = true;
+                            return Some(Err(e));
+                        }
 
                         let filter_true = if self.left_is_outer {
                             self.op
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index f27d00d..56015d1 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -36,6 +36,7 @@ pub struct NodeSearch<'a> {
     node_search_desc: Arc<NodeSearchDesc>,
     is_sorted: bool,
     timeout: TimeoutCheck,
+    timeout_reached: bool,
 }
 struct CommonArguments<'a> {
     query_fragment: String,
@@ -558,6 +559,7 @@ impl<'a> NodeSearch<'a> {
                     }),
                     is_sorted: false,
                     timeout,
+                    timeout_reached: false,
                 })
             }
         }
@@ -677,6 +679,7 @@ impl<'a> NodeSearch<'a> {
             }),
             is_sorted: false,
             timeout: common_args.timeout,
+            timeout_reached: false,
         })
     }
 
@@ -780,6 +783,7 @@ impl<'a> NodeSearch<'a> {
             }),
             is_sorted: false,
             timeout: common_args.timeout,
+            timeout_reached: false,
         })
     }
 
@@ -928,6 +932,7 @@ impl<'a> NodeSearch<'a> {
             }),
             is_sorted: false,
             timeout: common_args.timeout,
+            timeout_reached: false,
         })
     }
 
@@ -983,6 +988,7 @@ impl<'a> NodeSearch<'a> {
             }),
             is_sorted: true,
             timeout: common_args.timeout,
+            timeout_reached: false,
         })
     }
 
@@ -1087,6 +1093,7 @@ impl<'a> NodeSearch<'a> {
             node_search_desc,
             is_sorted: false,
             timeout,
+            timeout_reached: false,
         })
     }
 
@@ -1117,7 +1124,13 @@ impl Iterator for NodeSearch<'_> {
     type Item = Result<MatchGroup>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.timeout_reached {
+            return None;
+        }
         if let Err(e) = self.timeout.check() {
+            // Report the timeout once: returning an endless sequence of errors would never end the
+            // execution nodes which consume all matches of this search.
+            self.timeout_reached = true;
             return Some(Err(e));
         }
         self.it.next()
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index ac6fc72..ff8dd8b 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -1,6 +1,7 @@
 use super::super::{ExecutionNode, ExecutionNodeDesc};
 use crate::annis::db::aql::conjunction::BinaryOperatorEntry;
 use crate::annis::operator::BinaryOperatorBase;
+use crate::annis::util::TimeoutCheck;
 use crate::errors::Result;
 use graphannis_core::annostorage::MatchGroup;
 use rayon::prelude::*;
@@ -26,6 +27,9 @@ pub struct NestedLoop<'a> {
     desc: ExecutionNodeDesc,
 
     global_reflexivity: bool,
+
+    timeout: TimeoutCheck,
+    timeout_reached: bool,
 }
 
 type MatchCandidate = (Arc<MatchGroup>, Arc<MatchGroup>, Sender<Result<MatchGroup>>);
@@ -37,6 +41,7 @@ impl<'a> NestedLoop<'a> {
         rhs: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         lhs_idx: usize,
         rhs_idx: usize,
+        timeout: TimeoutCheck,
     ) -> Result<NestedLoop<'a>> {
         let mut left_is_outer = true;
         if let (Some(desc_lhs), Some(desc_rhs)) = (lhs.get_desc(), rhs.get_desc())
@@ -82,6 +87,8 @@ impl<'a> NestedLoop<'a> {
                 global_reflexivity: op_entry.args.global_reflexivity,
                 match_candidate_buffer: Vec::with_capacity(MAX_BUFFER_SIZE),
                 current_outer: None,
+                timeout,
+                timeout_reached: false,
             };
             Ok(join)
         } else {
@@ -110,6 +117,8 @@ impl<'a> NestedLoop<'a> {
                 global_reflexivity: op_entry.args.global_reflexivity,
                 match_candidate_buffer: Vec::with_capacity(MAX_BUFFER_SIZE),
                 current_outer: None,
+                timeout,
+                timeout_reached: false,
             };
             Ok(join)
         }
@@ -219,7 +228,19 @@ impl<'a> NestedLoop<'a> {
         self.next_match_buffer(&tx);
 
         if self.match_candidate_buffer.is_empty() {
-            return None;
+            // There are no candidates left, but an error could have occurred
+            // while fetching them, which must not be lost.
+            drop(tx);
+            return match rx.try_recv() {
+                Ok(result) => {
+                    let (tx, rx) = channel();
+                    if tx.send(result).is_err() {
+                        return None;
+                    }
+                    Some(rx)
+                }
+                Err(_) => None,
+            };
         }
 
         let left_is_outer = self.left_is_outer;
@@ -282,6 +303,9 @@ impl Iterator for NestedLoop<'_> {
     type Item = Result<MatchGroup>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.timeout_reached {
+            return None;
+        }
         // lazily initialize
         if self.match_receiver.is_none() {
             self.match_receiver = if let Some(rhs) = self.next_match_receiver() {
@@ -299,6 +323,11 @@ impl Iterator for NestedLoop<'_> {
                 }
             }
 
+            if let Err(e) = self.timeout.check() {
+                self.timeout_reached = true;
+                return Some(Err(e));
+            }
+
             // get new candidates
             if let Some(rhs) = self.next_match_receiver() {
                 self.match_receiver = Some(rhs);
-- 
2.43.0


From 283259487508b4a07bf1acf8f1ca4ce620170c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:15 +0000
Subject: [PATCH 70/76] fix: check the timeout also when joins produce no
 results or results are sorted

Joins whose results are all excluded by filters and collecting the matches for
sorting never checked the timeout. Counting treated errors as matches.
---
 graphannis/src/annis/db/aql/conjunction.rs  |  3 +-
 graphannis/src/annis/db/corpusstorage.rs    |  3 +-
 graphannis/src/annis/db/exec/mod.rs         |  1 +
 graphannis/src/annis/db/exec/timeoutnode.rs | 60 +++++++++++++++++++++
 4 files changed, 65 insertions(+), 2 deletions(-)
 create mode 100644 graphannis/src/annis/db/exec/timeoutnode.rs

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 1bd4d8f..23a97b6 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -10,6 +10,7 @@ use crate::annis::db::exec::indexjoin::IndexJoin;
 use crate::annis::db::exec::nestedloop::NestedLoop;
 use crate::annis::db::exec::nodesearch::{NodeSearch, NodeSearchSpec};
 use crate::annis::db::exec::parallel;
+use crate::annis::db::exec::timeoutnode::TimeoutNode;
 use crate::annis::db::exec::{CostEstimate, ExecutionNode, ExecutionNodeDesc, NodeSearchDesc};
 use crate::annis::errors::*;
 use crate::annis::operator::{
@@ -851,7 +852,7 @@ impl Conjunction {
                 let join = create_join(
                     g, config, op_entry, exec_left, exec_right, idx_left, idx_right, timeout,
                 )?;
-                Ok(join)
+                Ok(Box::new(TimeoutNode::new(join, timeout)))
             };
         let new_exec = new_exec?;
 
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 5a13824..f564425 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1739,7 +1739,8 @@ impl CorpusStorage {
             let plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
 
-            for _ in plan {
+            for m in plan {
+                m?;
                 total_count += 1;
                 if total_count.is_multiple_of(TIMEOUT_CHECK_TUPLE_COUNT) {
                     timeout.check()?;
diff --git a/graphannis/src/annis/db/exec/mod.rs b/graphannis/src/annis/db/exec/mod.rs
index e5822a4..074de52 100644
--- a/graphannis/src/annis/db/exec/mod.rs
+++ b/graphannis/src/annis/db/exec/mod.rs
@@ -234,4 +234,5 @@ pub mod indexjoin;
 pub mod nestedloop;
 pub mod nodesearch;
 pub mod parallel;
+pub mod timeoutnode;
 pub mod tokensearch;
diff --git a/graphannis/src/annis/db/exec/timeoutnode.rs b/graphannis/src/annis/db/exec/timeoutnode.rs
new file mode 100644
index 0000000..79a4019
--- /dev/null
+++ b/graphannis/src/annis/db/exec/timeoutnode.rs
@@ -0,0 +1,60 @@
+use super::{ExecutionNode, ExecutionNodeDesc};
+use crate::annis::util::TimeoutCheck;
+use crate::errors::Result;
+use graphannis_core::annostorage::MatchGroup;
+
+/// The timeout is checked each time after this number of matches.
+const TIMEOUT_CHECK_INTERVAL: usize = 1000;
+
+/// Passes on the matches of a join and regularly checks if the timeout was reached.
+///
+/// This also ends the execution when none of the matches is part of the result,
+/// e.g. because they are excluded by a filter. The timeout is reported once.
+pub struct TimeoutNode<'a> {
+    exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
+    timeout: TimeoutCheck,
+    timeout_reached: bool,
+    nr_matches: usize,
+}
+
+impl<'a> TimeoutNode<'a> {
+    pub fn new(
+        exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
+        timeout: TimeoutCheck,
+    ) -> TimeoutNode<'a> {
+        TimeoutNode {
+            exec,
+            timeout,
+            timeout_reached: false,
+            nr_matches: 0,
+        }
+    }
+}
+
+impl ExecutionNode for TimeoutNode<'_> {
+    fn get_desc(&self) -> Option<&ExecutionNodeDesc> {
+        self.exec.get_desc()
+    }
+
+    fn is_sorted_by_text(&self) -> bool {
+        self.exec.is_sorted_by_text()
+    }
+}
+
+impl Iterator for TimeoutNode<'_> {
+    type Item = Result<MatchGroup>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.timeout_reached {
+            return None;
+        }
+        self.nr_matches += 1;
+        if self.nr_matches.is_multiple_of(TIMEOUT_CHECK_INTERVAL)
+            && let Err(e) = self.timeout.check()
+        {
+            self.timeout_reached = true;
+            return Some(Err(e));
+        }
+        self.exec.next()
+    }
+}
-- 
2.43.0


From d95b44c16001bea1e1997e09af21507200b6f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:04 +0000
Subject: [PATCH 71/76] fix: two processes could own the same data directory

The lock file was deleted after it had been unlocked, so the file which another
process had just locked could be deleted and a third process could create and
lock a new one. Delete the file before unlocking it and verify that the locked
file is still the one at the path.
---
 graphannis/src/annis/db/corpusstorage.rs | 93 +++++++++++++++---------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index f564425..86357d3 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2729,27 +2729,30 @@ impl Drop for CorpusStorage {
             nr_active_background_workers = cvar.wait(nr_active_background_workers).unwrap();
         }
 
+        // Delete the lock file. This helps in case different users have acess
+        // to the corpus directory. The first user owns the lock file and closes
+        // the CLI/web service. The second user could take over the lock, but
+        // can't if the lock file still exists and is owned by the previous
+        // user. An example workflow is having a system user for the web service
+        // and occasionally adding new corpora on the command line using an
+        // administration account (see
+        // https://github.com/korpling/graphANNIS/issues/230).
+        //
+        // The file has to be deleted before it is unlocked. Otherwise, the file
+        // that is deleted could already be locked by another process.
+        let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
+        if lock_file_path.exists()
+            && lock_file_path.is_file()
+            && let Err(e) = std::fs::remove_file(lock_file_path)
+        {
+            warn!("Could not remove CorpusStorage lock file: {:?}", e);
+        }
+
         // unlock lock file
         if let Err(e) = FileExt::unlock(&self.lock_file) {
             warn!("Could not unlock CorpusStorage lock file: {:?}", e);
         } else {
             trace!("Unlocked CorpusStorage lock file");
-            // Delete the file after it has been unlocked. This helps in case
-            // different users have acess to the corpus directory. The first
-            // user owns the lock file and closes the CLI/web service. The
-            // second user could take over the lock, but can't if the lock file
-            // still exists and is owned by the previous user. An example
-            // workflow is having a system user for the web service and
-            // occasionally adding new corpora on the command line using an
-            // administration account (see
-            // https://github.com/korpling/graphANNIS/issues/230).
-            let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
-            if lock_file_path.exists()
-                && lock_file_path.is_file()
-                && let Err(e) = std::fs::remove_file(lock_file_path)
-            {
-                warn!("Could not remove CorpusStorage lock file: {:?}", e);
-            }
         }
     }
 }
@@ -3037,25 +3040,47 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
         source: e,
     })?;
     let lock_file_path = db_dir.join(DB_LOCK_FILE_NAME);
-    // check if we can get the file lock
-    let lock_file = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .create(true)
-        .truncate(true)
-        .open(lock_file_path.as_path())
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
-    lock_file
-        .try_lock_exclusive()
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
+    let map_error = |e| CorpusStorageError::LockCorpusDirectory {
+        path: db_dir.to_string_lossy().to_string(),
+        source: e,
+    };
+    loop {
+        // check if we can get the file lock
+        let lock_file = OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .open(lock_file_path.as_path())
+            .map_err(map_error)?;
+        lock_file.try_lock_exclusive().map_err(map_error)?;
+
+        // The previous owner of the lock could have deleted the file between
+        // opening and locking it. Then, the lock does not exclude other
+        // processes which create a new file.
+        if is_file_at_path(&lock_file, &lock_file_path).map_err(map_error)? {
+            return Ok(lock_file);
+        }
+    }
+}
+
+/// Check if the path (still) belongs to the opened file.
+#[cfg(unix)]
+fn is_file_at_path(file: &File, path: &Path) -> std::io::Result<bool> {
+    use std::os::unix::fs::MetadataExt;
+
+    let opened = file.metadata()?;
+    match std::fs::metadata(path) {
+        Ok(current) => Ok(opened.dev() == current.dev() && opened.ino() == current.ino()),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+        Err(e) => Err(e),
+    }
+}
 
-    Ok(lock_file)
+/// Check if the path (still) belongs to the opened file.
+#[cfg(not(unix))]
+fn is_file_at_path(_file: &File, path: &Path) -> std::io::Result<bool> {
+    path.try_exists()
 }
 
 /// Decreases the number of active background workers, even when the worker was aborted.
-- 
2.43.0


From 36b0491f8851c64887592dce7b9af7b208317d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:56 +0000
Subject: [PATCH 72/76] fix: linked files of the web service are those of the
 requested corpus

The directory of the corpus was determined with another escaping than the one
of the corpus storage, files of corpora with special characters were not
found and the directories of other corpora could be accessed. Names of files
were decoded twice, directories were returned as empty response, names that
contain two dots rejected and files of corpora imported under another name
not listed.
---
 graphannis/src/annis/db/corpusstorage.rs |  30 ++++++
 webservice/src/api/corpora.rs            | 117 ++++++++++-------------
 2 files changed, 79 insertions(+), 68 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 86357d3..e6e3a2f 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1232,6 +1232,36 @@ impl CorpusStorage {
 
     /// Find all nodes of the type "file" and return an iterator
     /// over a tuple of the node name and the absolute path of the linked file.
+    /// Returns the directory which contains all linked files of the corpus.
+    ///
+    /// The directory does not exist if the corpus does not exist or has no linked files.
+    pub fn linked_files_directory(&self, corpus_name: &str) -> Result<PathBuf> {
+        Ok(self.corpus_directory_on_disk(corpus_name)?.join("files"))
+    }
+
+    /// Returns the path where the linked file for the file node with the given name is stored.
+    pub fn linked_file_location(&self, corpus_name: &str, node_name: &str) -> Result<PathBuf> {
+        Ok(self
+            .linked_files_directory(corpus_name)?
+            .join(linked_file_path(node_name)))
+    }
+
+    /// Returns the name of the file node for a path relative to the directory with the linked files.
+    pub fn linked_file_node_name(relative_path: &Path) -> String {
+        let escaped_name = relative_path
+            .strip_prefix(ESCAPED_LINKED_FILES)
+            .ok()
+            .and_then(|p| p.to_str())
+            .and_then(|p| p.strip_suffix(".file"));
+        if let Some(escaped_name) = escaped_name {
+            percent_decode_str(escaped_name)
+                .decode_utf8_lossy()
+                .to_string()
+        } else {
+            relative_path.to_string_lossy().to_string()
+        }
+    }
+
     fn get_linked_files<'a>(
         &'a self,
         corpus_name: &'a str,
diff --git a/webservice/src/api/corpora.rs b/webservice/src/api/corpora.rs
index 2011742..60ed837 100644
--- a/webservice/src/api/corpora.rs
+++ b/webservice/src/api/corpora.rs
@@ -7,21 +7,7 @@ use actix_web::{HttpResponse, web};
 use graphannis::{
     CorpusStorage, corpusstorage::QueryLanguage, graph, model::AnnotationComponentType,
 };
-use percent_encoding::{AsciiSet, CONTROLS, utf8_percent_encode};
-use std::{borrow::Cow, path::PathBuf};
-
-pub const PATH_SEGMENT_ENCODE_SET: &AsciiSet = &CONTROLS
-    .add(b' ')
-    .add(b'"')
-    .add(b'#')
-    .add(b'<')
-    .add(b'>')
-    .add(b'`')
-    .add(b'?')
-    .add(b'{')
-    .add(b'}')
-    .add(b'%')
-    .add(b'/');
+use std::path::{Component as PathComponent, Path};
 
 pub async fn list(
     cs: web::Data<CorpusStorage>,
@@ -242,9 +228,30 @@ pub struct ListFilesParameters {
     node: Option<String>,
 }
 
+/// Make sure that the name can be used as relative path inside of a folder.
+fn check_file_name(name: &str) -> Result<(), ServiceError> {
+    for c in Path::new(name).components() {
+        match c {
+            PathComponent::ParentDir => {
+                return Err(ServiceError::IllegalNodePath(
+                    "No .. allowed in file name".to_string(),
+                ));
+            }
+            PathComponent::RootDir | PathComponent::Prefix(_) => {
+                return Err(ServiceError::IllegalNodePath(
+                    "No absolute path allowed in file name".to_string(),
+                ));
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 pub async fn list_files(
     corpus: web::Path<String>,
     params: web::Query<ListFilesParameters>,
+    cs: web::Data<CorpusStorage>,
     claims: ClaimsFromAuth,
     db_pool: web::Data<DbPool>,
     settings: web::Data<Settings>,
@@ -252,42 +259,25 @@ pub async fn list_files(
     check_corpora_authorized_read(vec![corpus.clone()], claims.0, &settings, &db_pool).await?;
 
     let mut found_files = Vec::default();
-    let escaped_corpus_name: Cow<str> =
-        utf8_percent_encode(&corpus, PATH_SEGMENT_ENCODE_SET).into();
     // Get the base path
-    let base_path = PathBuf::from(settings.database.graphannis.as_str())
-        .join(escaped_corpus_name.to_string())
-        .join("files")
-        .canonicalize()?;
-
-    // if the node name is set, restrict the search to the subfolder with the same ID, otherwise use the corpus ID
-    let search_path = if let Some(node) = &params.node {
-        // Perform some sanity checks to make sure only the relative sub-folder is used
-        let file_path = node.trim();
-        if file_path.contains("..") {
-            return Err(ServiceError::IllegalNodePath(
-                "No .. allowed in file name".to_string(),
-            ));
-        } else if file_path.starts_with('/') {
-            return Err(ServiceError::IllegalNodePath(
-                "No absolute path allowed in file name".to_string(),
-            ));
-        };
-        base_path.join(file_path)
-    } else {
-        base_path.join(corpus.as_ref())
+    let base_path = cs.linked_files_directory(&corpus)?.canonicalize()?;
+
+    // If the node name is set, restrict the result to the files of this node and its descendants
+    let prefix = match params.node.as_deref() {
+        Some(node) if !node.is_empty() => {
+            check_file_name(node)?;
+            Some(format!("{node}/"))
+        }
+        _ => None,
     };
 
-    // List all files in the search path
-    if search_path.exists() && search_path.is_dir() {
-        for entry in walkdir::WalkDir::new(search_path) {
-            let entry = entry?;
-            // get the absolute path
-            let entry_path = entry.path().canonicalize()?;
-            if entry_path.is_file() {
-                // get relative path to base path and add it to result
-                let resolved_path = entry_path.strip_prefix(&base_path)?;
-                found_files.push(resolved_path.to_string_lossy().to_string());
+    for entry in walkdir::WalkDir::new(&base_path) {
+        let entry = entry?;
+        if entry.file_type().is_file() {
+            // get relative path to base path and add it to result
+            let name = CorpusStorage::linked_file_node_name(entry.path().strip_prefix(&base_path)?);
+            if prefix.as_ref().is_none_or(|p| name.starts_with(p)) {
+                found_files.push(name);
             }
         }
     }
@@ -297,36 +287,27 @@ pub async fn list_files(
 
 pub async fn file_content(
     path: web::Path<(String, String)>,
+    cs: web::Data<CorpusStorage>,
     claims: ClaimsFromAuth,
     db_pool: web::Data<DbPool>,
     settings: web::Data<Settings>,
 ) -> Result<NamedFile, ServiceError> {
     let (corpus, name) = path.into_inner();
-    let name = percent_encoding::percent_decode_str(&name).decode_utf8_lossy();
 
     check_corpora_authorized_read(vec![corpus.clone()], claims.0, &settings, &db_pool).await?;
 
-    // Perform some sanity checks to make sure only the relative sub-folder is used
-    let file_path = name.trim();
-    if file_path.contains("..") {
-        return Err(ServiceError::IllegalNodePath(
-            "No .. allowed in file name".to_string(),
-        ));
-    } else if file_path.starts_with('/') {
-        return Err(ServiceError::IllegalNodePath(
-            "No absolute path allowed in file name".to_string(),
-        ));
+    let mut file = cs.linked_file_location(&corpus, &name)?;
+    if !file.is_file() {
+        // The name could have been encoded more than once
+        let name = percent_encoding::percent_decode_str(&name).decode_utf8_lossy();
+        check_file_name(&name)?;
+        file = cs.linked_file_location(&corpus, &name)?;
+    }
+    if !file.is_file() {
+        return Err(ServiceError::NotFound);
     }
 
-    // Resolve against data folder
-    let escaped_corpus_name: Cow<str> =
-        utf8_percent_encode(&corpus, PATH_SEGMENT_ENCODE_SET).into();
-    let path = PathBuf::from(settings.database.graphannis.as_str())
-        .join(escaped_corpus_name.to_string())
-        .join("files")
-        .join(file_path);
-
-    Ok(NamedFile::open(path)?)
+    Ok(NamedFile::open(file)?)
 }
 pub async fn delete(
     path: web::Path<String>,
-- 
2.43.0


From ccc0c013bab94a5f1eb1ed0b692ee206697247ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:23 +0000
Subject: [PATCH 73/76] fix: web service failed with concurrent changes of
 groups

The connections to the database did not wait for locks, so requests were
answered with an error when a group was changed at the same time.
---
 webservice/src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/webservice/src/main.rs b/webservice/src/main.rs
index e6e7cde..180ee7b 100644
--- a/webservice/src/main.rs
+++ b/webservice/src/main.rs
@@ -22,6 +22,7 @@ use administration::BackgroundJobs;
 use anyhow::bail;
 use api::administration;
 use clap::Arg;
+use diesel::connection::SimpleConnection;
 use diesel::prelude::*;
 use diesel::r2d2::{self, ConnectionManager};
 use diesel_migrations::{EmbeddedMigrations, MigrationHarness, embed_migrations};
@@ -60,6 +61,17 @@ type DbPool = r2d2::Pool<ConnectionManager<SqliteConnection>>;
 
 pub const MIGRATIONS: EmbeddedMigrations = embed_migrations!("migrations");
 
+/// Lets the connections wait for concurrent changes of the database instead of failing immediately.
+#[derive(Debug)]
+struct WaitForLocks;
+
+impl r2d2::CustomizeConnection<SqliteConnection, r2d2::Error> for WaitForLocks {
+    fn on_acquire(&self, conn: &mut SqliteConnection) -> std::result::Result<(), r2d2::Error> {
+        conn.batch_execute("PRAGMA busy_timeout = 10000;")
+            .map_err(r2d2::Error::QueryError)
+    }
+}
+
 fn init_app_state() -> anyhow::Result<(graphannis::CorpusStorage, settings::Settings, DbPool)> {
     // Parse CLI arguments
     let matches = clap::App::new("graphANNIS web service")
@@ -104,7 +116,9 @@ fn init_app_state() -> anyhow::Result<(graphannis::CorpusStorage, settings::Sett
 
     // Add a connection pool to the SQLite database
     let manager = ConnectionManager::<SqliteConnection>::new(&settings.database.sqlite);
-    let db_pool = r2d2::Pool::builder().build(manager)?;
+    let db_pool = r2d2::Pool::builder()
+        .connection_customizer(Box::new(WaitForLocks))
+        .build(manager)?;
 
     // Make sure the database has all migrations applied
     let mut conn = db_pool.get()?;
-- 
2.43.0


From f7980df5997207db0568948b2e9bd316f46035bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 74/76] fix: C API aborted the process for query attribute
 positions behind the end

---
 capi/src/data.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/capi/src/data.rs b/capi/src/data.rs
index 66a0221..fe2e04f 100644
--- a/capi/src/data.rs
+++ b/capi/src/data.rs
@@ -198,6 +198,9 @@ pub extern "C" fn annis_vec_qattdesc_get_component_nr(
     i: size_t,
 ) -> usize {
     let desc_ptr: *const QueryAttributeDescription = vec_get(ptr, i);
+    if desc_ptr.is_null() {
+        return 0;
+    }
     let desc: &QueryAttributeDescription = cast_const(desc_ptr);
     desc.alternative
 }
@@ -211,6 +214,9 @@ pub extern "C" fn annis_vec_qattdesc_get_aql_fragment(
     i: size_t,
 ) -> *mut c_char {
     let desc_ptr: *const QueryAttributeDescription = vec_get(ptr, i);
+    if desc_ptr.is_null() {
+        return std::ptr::null_mut();
+    }
     let desc: &QueryAttributeDescription = cast_const(desc_ptr);
     let cstr: CString = CString::new(desc.query_fragment.as_str()).unwrap_or_default();
     cstr.into_raw()
@@ -225,6 +231,9 @@ pub extern "C" fn annis_vec_qattdesc_get_variable(
     i: size_t,
 ) -> *mut c_char {
     let desc_ptr: *const QueryAttributeDescription = vec_get(ptr, i);
+    if desc_ptr.is_null() {
+        return std::ptr::null_mut();
+    }
     let desc: &QueryAttributeDescription = cast_const(desc_ptr);
     let cstr: CString = CString::new(desc.variable.as_str()).unwrap_or_default();
     cstr.into_raw()
@@ -239,6 +248,9 @@ pub extern "C" fn annis_vec_qattdesc_get_anno_name(
     i: size_t,
 ) -> *mut c_char {
     let desc_ptr: *const QueryAttributeDescription = vec_get(ptr, i);
+    if desc_ptr.is_null() {
+        return std::ptr::null_mut();
+    }
     let desc: &QueryAttributeDescription = cast_const(desc_ptr);
     if let Some(anno_name) = &desc.anno_name {
         let cstr: CString = CString::new(anno_name.as_str()).unwrap_or_default();
-- 
2.43.0


From 328799c3e8be7607eb6a71beeaaa48136b492c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:09 +0000
Subject: [PATCH 75/76] fix: node references of later alternatives were shifted
 in quirks mode

---
 graphannis/src/annis/db/aql/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index 1c8b3ed..2089f9d 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -95,13 +95,14 @@ fn map_conjunction(
     offsets: &BTreeMap<usize, usize>,
     var_idx_offset: usize,
     quirks_mode: bool,
-) -> Result<Conjunction> {
+) -> Result<(Conjunction, usize)> {
     let mut q = Conjunction::with_offset(var_idx_offset);
     // collect and sort all node searches according to their start position in the text
     let (pos_to_node, pos_to_endpos) = calculate_node_positions(&c, offsets, quirks_mode)?;
 
     // add all nodes specs in order of their start position
     let mut pos_to_node_id = add_node_specs_by_start(&mut q, pos_to_node, pos_to_endpos, offsets)?;
+    let num_of_query_nodes = q.num_of_nodes();
 
     // add all unary operators as filter(s) to the referenced nodes
     for literal in c.iter() {
@@ -262,7 +263,7 @@ fn map_conjunction(
         }
     }
 
-    Ok(q)
+    Ok((q, num_of_query_nodes))
 }
 
 type PosToNodeMap = BTreeMap<usize, (NodeSearchSpec, Option<String>, bool)>;
@@ -504,7 +505,8 @@ pub fn parse(query_as_aql: &str, quirks_mode: bool) -> Result<Disjunction> {
             let mut var_idx_offset = 0;
             for c in ast {
                 // add the conjunction to the disjunction
-                let mut mapped = map_conjunction(c, &offsets, var_idx_offset, quirks_mode)?;
+                let (mut mapped, num_of_query_nodes) =
+                    map_conjunction(c, &offsets, var_idx_offset, quirks_mode)?;
 
                 if quirks_mode {
                     // apply the meta constraints to first node of all conjunctions
@@ -515,7 +517,9 @@ pub fn parse(query_as_aql: &str, quirks_mode: bool) -> Result<Disjunction> {
                         first_node_var,
                     )?;
                 }
-                var_idx_offset += mapped.num_of_nodes();
+                // References to nodes count the nodes of the query text, but not the nodes which
+                // have been added to emulate the quirks mode.
+                var_idx_offset += num_of_query_nodes;
 
                 alternatives.push(mapped);
             }
-- 
2.43.0


From 4be192fe82377d2231423f51cb833bd28d91afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 76/76] fix: metadata conditions restricted other nodes of the
 query in quirks mode

---
 graphannis/src/annis/db/aql/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index 2089f9d..741fdf8 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -380,7 +380,7 @@ fn add_legacy_metadata_constraints(
                     Arc::new(IdenticalNodeSpec {}),
                     &first_meta_var,
                     &meta_node_var,
-                    true,
+                    false,
                 )?;
             } else if let Some(first_node_var) = first_node_var.clone() {
                 first_meta_var = Some(meta_node_var.clone());
@@ -391,7 +391,7 @@ fn add_legacy_metadata_constraints(
                     }),
                     &first_node_var,
                     &meta_node_var,
-                    true,
+                    false,
                 )?;
                 // Also make sure the matched node is actually a document
                 // (the @* could match anything in the hierarchy, including the toplevel corpus)
@@ -411,7 +411,7 @@ fn add_legacy_metadata_constraints(
                     Arc::new(IdenticalNodeSpec {}),
                     &meta_node_var,
                     &doc_anno_idx,
-                    true,
+                    false,
                 )?;
             }
         }
-- 
2.43.0

