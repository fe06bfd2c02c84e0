From bee67beef9d4775cdef41b502405553c46d7b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 01/24] fix: count an edge only when add_edge really adds it

add_edge incremented the edge count even when the edge existed already
(also through update_edge_label), so the count drifted upwards.
---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..5c8bcb4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -353,7 +353,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From 866b67c9e7310333af3102801a01d797fc584ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 02/24] fix: removing a node with a self-loop no longer panics
 or miscounts

remove_node looked the node itself up after taking it out of the map, and
subtracted a directed self-loop once as out-edge and once as in-edge.
---
 src/graph_impl/graph_map/graph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5c8bcb4..0f07979 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -300,22 +300,26 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
         match self.node_map.remove(&id) {
             Some(node) => {
                 if self.is_directed() {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_in_edge(id);
                     }
-                    for in_neighbor in node.in_neighbors_iter() {
+                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 } else {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 }
 
                 self.num_of_edges -= node.degree() + node.in_degree();
+                if node.has_in_neighbor(id) {
+                    // A self-loop is both an out-edge and an in-edge.
+                    self.num_of_edges += 1;
+                }
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From 5bd8a6607d01e75fe7ce5bb4a0f8788f45b3d33a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 03/24] fix: compare node and edge counts in equality of
 mutable graphs

`!a == b` is a bitwise complement on usize, so the counts were never
compared and a graph was equal to any supergraph of itself.
---
 src/graph_impl/graph_map/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 0f07979..7cde9ff 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From cf23389112cfa03902386d1b300c1f4766bebabf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 04/24] fix: compare node and edge counts in equality of static
 graphs

`!a == b` is a bitwise complement on usize, so the counts were never
compared and a graph was equal to any supergraph of itself.
---
 src/graph_impl/static_graph/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..ac7a471 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From 49d8ecdfaac2d21ccd4e72b2cef50bf15e160ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 05/24] fix: edges() of static graphs pairs each edge with its
 own label

The label array has one entry per stored direction, but the edge ids of an
undirected graph list one direction only, so zipping the two shifted the
labels.
---
 src/graph_impl/static_graph/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ac7a471..0f3df9c 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -548,9 +548,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            Iter::new(Box::new(
+                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),
+            ))
         }
     }
 
-- 
2.43.0


From 33f0f8d18b7bfba9e8c5437f27422ecb74cd6c17 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 06/24] fix: edges() of memory-mapped graphs pairs each edge
 with its own label

The label array has one entry per stored direction, but the edge ids of an
undirected graph list one direction only, so zipping the two shifted the
labels.
---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..5d9e181 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -247,9 +247,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            Iter::new(Box::new(
+                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),
+            ))
         }
     }
 
-- 
2.43.0


From 200ebb53121c3dedec4819b70640217169e346da Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 07/24] fix: has_edge of a memory-mapped graph is false for
 unknown nodes

It asked for the neighbours of the start node, which panics when there is no
such node; the static graph answers false.
---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 5d9e181..f4d5c99 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -187,11 +187,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From fd5f2bf3634c25eafbc6f112b54a9e0e6662e896 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 08/24] fix: range indexing of a mapped array checks its bounds

`map[..end]` and `map[start..]` built slices with an unchecked length, so a
safe index expression could read outside the mapping.
---
 src/io/mmap.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..0828ca6 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -35,8 +35,6 @@ use std::slice;
 pub struct TypedMemoryMap<T: Copy> {
     pub map: memmap::Mmap,
     pub len: usize,
-    type_len: usize,
-    // in bytes (needed because map extends to full block)
     phn: PhantomData<T>,
 }
 
@@ -48,7 +46,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         TypedMemoryMap {
             map: unsafe { memmap::Mmap::map(&file).unwrap() },
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -59,7 +56,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         Self {
             map,
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -77,13 +73,7 @@ impl<T: Copy> ops::Index<ops::RangeFrom<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeFrom<usize>) -> &[T] {
-        let index = _index.start;
-        unsafe {
-            slice::from_raw_parts(
-                self.map.as_ptr().add(index * self.type_len) as *const T,
-                self.len - index,
-            )
-        }
+        &self[..][_index.start..]
     }
 }
 
@@ -91,7 +81,7 @@ impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeTo<usize>) -> &[T] {
-        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }
+        &self[..][.._index.end]
     }
 }
 
-- 
2.43.0


From 0c0760bf148c5f6a64356f28fecdf7533391cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 09/24] fix: an empty array file can be loaded as a memory map

A graph without edges dumps a zero-length edge file, which mmap refuses, so
loading it panicked (as did a zero-sized label type, by division by zero).
---
 src/io/mmap.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 0828ca6..83da1dd 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -43,9 +43,15 @@ impl<T: Copy> TypedMemoryMap<T> {
         let file = File::open(filename).expect("error opening file");
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
+        let map = if size == 0 {
+            // An empty file cannot be mapped.
+            memmap::MmapMut::map_anon(1).and_then(|map| map.make_read_only())
+        } else {
+            unsafe { memmap::Mmap::map(&file) }
+        };
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
-            len: size / type_len,
+            map: map.unwrap(),
+            len: size.checked_div(type_len).unwrap_or(0),
             phn: PhantomData,
         }
     }
@@ -55,7 +61,7 @@ impl<T: Copy> TypedMemoryMap<T> {
         let type_len = mem::size_of::<T>();
         Self {
             map,
-            len: size / type_len,
+            len: size.checked_div(type_len).unwrap_or(0),
             phn: PhantomData,
         }
     }
-- 
2.43.0


From f98a2ede2b14858d7da5a406ee73dbe99b9c80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 10/24] fix: an edge array without offsets has no nodes

num_nodes() of a default or cleared EdgeVec underflowed, so every query on it
panicked.
---
 src/graph_impl/static_graph/edge_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..6e061ea 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,7 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
-- 
2.43.0


From cecce6f34862df944148eebfaab87d4a11afcf2b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 11/24] fix: max_seen_id of an empty static graph is None

node_count() - 1 underflowed for graphs without nodes.
---
 src/graph_impl/static_graph/graph.rs           | 5 ++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 0f3df9c..985a462 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -573,7 +573,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index f4d5c99..2d42dea 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -266,7 +266,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 22839580e1121c227f12cc50e0ab9fb49f79c188 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 12/24] fix: an empty graph can be converted into a static
 graph

into_static unwrapped the largest node id of a graph that has none.
---
 src/graph_impl/graph_map/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 7cde9ff..cffca92 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -864,7 +864,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
         };
 
         let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
+        let max_nid = self.node_indices().max();
 
         offset_vec.push(offset);
 
@@ -872,7 +872,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
+        while Some(nid) <= max_nid {
             if let Some(mut node) = self.node_map.remove(&nid) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
-- 
2.43.0


From 5746ef7f4602b9163ee381747e9aebd768030f6b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 13/24] fix: SetMap equality respects the numbering, as its
 hash does

The derived equality ignored the order of the items while Hash depends on it,
so equal maps could have different hashes.
---
 src/map/set_map.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..c8f42e0 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -29,7 +29,7 @@ use io::serde::{Deserialize, Serialize};
 use map::VecMap;
 
 /// More efficient but less compact.
-#[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct SetMap<L: Hash + Eq> {
     labels: IndexSet<L>,
 }
@@ -131,6 +131,15 @@ impl<L: Hash + Eq> MutMapTrait<L> for SetMap<L> {
     }
 }
 
+impl<L: Hash + Eq> PartialEq for SetMap<L> {
+    fn eq(&self, other: &SetMap<L>) -> bool {
+        // The numbering of the items is part of the map (and of its hash).
+        self.labels.iter().eq(other.labels.iter())
+    }
+}
+
+impl<L: Hash + Eq> Eq for SetMap<L> {}
+
 impl<L: Hash + Eq> Hash for SetMap<L> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         for l in self.items() {
-- 
2.43.0


From 283d4eaf9db4369499cf3d01be8b3ccb12a15d86 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 14/24] fix: get_root of an unknown node is None instead of a
 panic

---
 src/algorithm/conn_comp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..03ec222 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -138,6 +138,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
-- 
2.43.0


From 39d56fa7eb368b518a2e8ca5520f2593f854b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 15/24] fix: isolated nodes are connected components of their
 own

run_detection looked at edges only, so isolated nodes were missing from the
components and splitting such a graph into its subgraphs panicked.
---
 src/algorithm/conn_comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index 03ec222..79fe68c 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,6 +97,13 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for node in graph.node_indices() {
+            if !self.parent().contains_key(&node) {
+                self.mut_parent().insert(node, node);
+                self.count += 1;
+            }
+        }
+
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
-- 
2.43.0


From 87cb09e3d1918e77648f50b4139c277a9dbafc66 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 16/24] fix: Serializer::export reports errors of the final
 write

The BufWriter was dropped without a flush, which discards write errors.
---
 src/io/serde.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..e07001b 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,10 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 6e7fc7c8d70b39eb979c0958db5d9632e5ebfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 17/24] fix: CSVWriter::write reports errors of the final write

The csv writers were dropped without a flush, which discards write errors.
---
 src/io/csv/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..8bf575a 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -111,6 +111,7 @@ where
         for id in self.g.node_indices() {
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
+        wtr.flush()?;
 
         info!(
             "csv::Writer::write - Writing edges to {}",
@@ -128,6 +129,7 @@ where
                 g.get_edge_label(start, target),
             ))?;
         }
+        wtr.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 6fdd9752b7a0b19c90fbc5f67edf19037cdbacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 18/24] fix: an empty label column means no label in
 header-less csv, too

With headers an empty label read as no label, without them as an empty text.
---
 src/io/csv/record.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..16e7b22 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,10 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq
+                    .next_element::<Option<N>>()
+                    .unwrap_or(None)
+                    .unwrap_or(None);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +208,10 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq
+                    .next_element::<Option<E>>()
+                    .unwrap_or(None)
+                    .unwrap_or(None);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0


From 449041873cd46d77fdc8c77cd865786e0195075d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 19/24] fix: VecMap built from a list keeps each item once

Duplicates gave one item two indices; SetMap built from the same list keeps
the first.
---
 src/map/vec_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/vec_map.rs b/src/map/vec_map.rs
index 305d9fc..60a284a 100644
--- a/src/map/vec_map.rs
+++ b/src/map/vec_map.rs
@@ -146,13 +146,13 @@ impl<L: Eq> FromIterator<L> for VecMap<L> {
 
 impl<L: Eq> From<Vec<L>> for VecMap<L> {
     fn from(vec: Vec<L>) -> Self {
-        VecMap::with_data(vec)
+        vec.into_iter().collect()
     }
 }
 
 impl<'a, L: Eq + Clone> From<&'a Vec<L>> for VecMap<L> {
     fn from(vec: &'a Vec<L>) -> Self {
-        VecMap::with_data(vec.clone())
+        vec.iter().cloned().collect()
     }
 }
 
-- 
2.43.0


From f98edfd9306c4e345c21ffdd1a34714d20e80c13 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 20/24] fix: dumping over an older dump leaves no stale label
 or in-edge files

The loader decides by the existence of these files whether a graph has labels
or is directed, so leftovers of an earlier dump became part of the new one.
---
 src/graph_impl/static_graph/edge_vec.rs |  4 ++--
 src/graph_impl/static_graph/graph.rs    |  8 +++++++-
 src/io/mmap.rs                          | 12 ++++++++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 6e061ea..faa2301 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use generic::IdType;
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use std::fs::File;
 use std::io::Result;
 
@@ -175,7 +175,7 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
             if !self.get_labels().is_empty() {
                 dump(self.get_labels(), File::create(labels_file)?)
             } else {
-                Ok(())
+                remove_stale(labels_file)
             }
         }
     }
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 985a462..f9f2a22 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -35,7 +35,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use io::serde::{Deserialize, Serialize, Serializer};
 use map::SetMap;
 
@@ -431,12 +431,18 @@ where
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
+        } else {
+            for part in &["offsets", "edges", "labels"] {
+                remove_stale(format!("{}.{}", in_edges_prefix, part))?;
+            }
         }
 
         if let Some(ref labels) = self.labels {
             unsafe {
                 dump(labels, ::std::fs::File::create(label_file)?)?;
             }
+        } else {
+            remove_stale(label_file)?;
         }
 
         let aux_file = StaticGraphMmapAux::new(
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 83da1dd..7945c08 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,8 +24,8 @@
 
 extern crate memmap;
 
-use std::fs::File;
-use std::io::{BufWriter, Result, Write};
+use std::fs::{self, File};
+use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
 use std::ops;
@@ -101,6 +101,14 @@ pub fn typed_as_byte_slice<T: Copy>(slice: &[T]) -> &[u8] {
     }
 }
 
+/// Remove a file that an earlier dump with the same prefix may have left behind.
+pub fn remove_stale<P: AsRef<Path>>(path: P) -> Result<()> {
+    match fs::remove_file(path) {
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        result => result,
+    }
+}
+
 pub unsafe fn dump<W: Write, T: Copy>(data: &[T], write: W) -> Result<()> {
     let mut writer = BufWriter::new(write);
     let mut slice = typed_as_byte_slice(data);
-- 
2.43.0


From a3fd78ae996b90fc06d9c246ad418a8e4baf6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 21/24] fix: never index a mapped array beyond the mapping

---
 src/io/mmap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 7945c08..00d0942 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,6 +24,7 @@
 
 extern crate memmap;
 
+use std::cmp;
 use std::fs::{self, File};
 use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
@@ -71,7 +72,10 @@ impl<T: Copy> ops::Index<ops::RangeFull> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeFull) -> &[T] {
-        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, self.len) }
+        // `map` and `len` are public: never go beyond what is mapped.
+        let mapped = self.map.len().checked_div(mem::size_of::<T>()).unwrap_or(0);
+        let len = cmp::min(self.len, mapped);
+        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, len) }
     }
 }
 
-- 
2.43.0


From 4752fa1b94ce850e1f366fe3ea8b0441c3b59fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:20:20 +0000
Subject: [PATCH 22/24] fix: csv: report I/O errors that occur while rows are
 read

Opening succeeds for a directory, and an unreadable disk block shows only
when rows are read; both were logged as malformed rows (or dropped with
the header row) and reading reported success.
---
 src/io/csv/reader.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/io/csv/reader.rs b/src/io/csv/reader.rs
index 7c99275..86c9a0d 100644
--- a/src/io/csv/reader.rs
+++ b/src/io/csv/reader.rs
@@ -121,11 +121,12 @@ where
                 "Adding nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            rdr.byte_headers()?;
 
             for (i, result) in rdr.into_deserialize().enumerate() {
                 match result {
@@ -133,7 +134,12 @@ where
                         let record: NodeRecord<Id, NL> = _result;
                         record.add_to_graph(g);
                     }
-                    Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                    Err(e) => {
+                        if e.is_io_error() {
+                            return Err(e.into());
+                        }
+                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                    }
                 }
             }
         }
@@ -143,11 +149,12 @@ where
             self.path_to_edges.as_path().to_str().unwrap()
         );
 
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        rdr.byte_headers()?;
 
         for (i, result) in rdr.into_deserialize().enumerate() {
             match result {
@@ -155,7 +162,12 @@ where
                     let record: EdgeRecord<Id, EL> = _result;
                     record.add_to_graph(g);
                 }
-                Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                Err(e) => {
+                    if e.is_io_error() {
+                        return Err(e.into());
+                    }
+                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                }
             }
         }
 
@@ -168,11 +180,12 @@ where
                 "Reading nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            rdr.byte_headers()?;
 
             let rdr = rdr
                 .into_deserialize()
@@ -199,11 +212,12 @@ where
             "Reading edges from {}",
             self.path_to_edges.as_path().to_str().unwrap()
         );
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        rdr.byte_headers()?;
 
         let rdr = rdr
             .into_deserialize()
-- 
2.43.0


From 60c6e2c4a9be099bac9a100326ff03678eb9cfee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 23/24] fix: ldbc: keep the kind of an entity apart from its id

"tag" with id "class5" and "tagclass" with id "5" shared one key, and
therefore one node.
---
 src/io/ldbc/node.rs     | 2 +-
 src/io/ldbc/relation.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 371d9c8..232b814 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -57,7 +57,7 @@ impl Node {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let str_id = self.name.clone() + &record[self.id_index];
+        let str_id = self.name.clone() + "\0" + &record[self.id_index];
 
         let id = *node_id_map.entry(str_id).or_insert_with(|| {
             if let Some(i) = g.max_seen_id() {
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 75f6782..cfe6233 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -69,8 +69,8 @@ impl Relation {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let start_str_id = self.start_label.clone() + &record[self.start_index];
-        let target_str_id = self.target_label.clone() + &record[self.target_index];
+        let start_str_id = self.start_label.clone() + "\0" + &record[self.start_index];
+        let target_str_id = self.target_label.clone() + "\0" + &record[self.target_index];
 
         let start_id = *node_id_map.entry(start_str_id).or_insert_with(|| {
             let i = if let Some(i) = g.max_seen_id() {
-- 
2.43.0


From af6f5403cf6f08b40b05b9393a1e526942f65c9f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:52:22 +0000
Subject: [PATCH 24/24] fix: remove_node subtracted a self-loop twice before
 adding it back, underflowing the edge count when it is the only edge

---
 src/graph_impl/graph_map/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index cffca92..f6a6419 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -315,11 +315,12 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                let mut removed_edges = node.degree() + node.in_degree();
                 if node.has_in_neighbor(id) {
                     // A self-loop is both an out-edge and an in-edge.
-                    self.num_of_edges += 1;
+                    removed_edges -= 1;
                 }
+                self.num_of_edges -= removed_edges;
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0

