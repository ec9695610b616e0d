From f7cad8bc600d12bf32267647cefad236a445cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 1/5] fix: saturate weight sums instead of wrapping around

---
 src/node_contractor.rs |  4 +++-
 src/path_calculator.rs | 30 ++++++++++++++++++++----------
 src/witness_search.rs  |  2 +-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..f304ee1 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,9 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..f5cc1bd 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,9 +93,9 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
-                    best_weight = *start_weight + *end_weight;
+                    best_weight = start_weight.saturating_add(*end_weight);
                     meeting_node = *end_node;
                 }
             }
@@ -142,7 +142,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
@@ -150,9 +150,14 @@ impl PathCalculator {
                 }
                 self.data_fwd[curr.node_id].settled = true;
                 if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id))
+                        < best_weight
                 {
-                    best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
+                    best_weight = curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id));
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -178,7 +183,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
@@ -186,9 +191,14 @@ impl PathCalculator {
                 }
                 self.data_bwd[curr.node_id].settled = true;
                 if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id))
+                        < best_weight
                 {
-                    best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
+                    best_weight = curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id));
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -220,7 +230,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +247,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..dab91a1 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -131,7 +131,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From 3afceef515f5f86f8d7d841e38cbb626b45d7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 2/5] fix: report write errors of the final flush in to_file
 and to_dimacs_file

---
 src/input_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..ef0c1a8 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +107,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From 1cdfe2d54510f2c2b53b7bd14221b94f26fe966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 3/5] fix: do not silently turn u32::MAX into usize::MAX in the
 32bit representation

---
 src/fast_graph32.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..6fc03de 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -41,8 +41,8 @@ pub struct FastGraph32 {
 
 impl FastGraph32 {
     /// Creates a 32bit Graph from a given `FastGraph`. All (potentially 64bit) `usize` integers are
-    /// simply converted to u32 and if a value exceeds the 32bit limit an error is thrown. The only
-    /// exception is `std::u32::MAX`, which is converted to `std::usize::MAX`.
+    /// simply converted to u32 and if a value is not below the 32bit limit this panics. The only
+    /// exception is `std::usize::MAX`, which is converted to `std::u32::MAX`.
     pub fn new(fast_graph: &FastGraph) -> Self {
         FastGraph32 {
             num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
@@ -79,11 +79,12 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
-    } else if let Ok(x) = u32::try_from(int) {
-        x
-    } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        return std::u32::MAX;
+    }
+    match u32::try_from(int) {
+        // u32::MAX is reserved, because it is converted back to usize::MAX
+        Ok(x) if x != std::u32::MAX => x,
+        _ => panic!("Could not convert {} to a 32-bit integer", int),
     }
 }
 
-- 
2.43.0


From c20e8ded439fbc468e0cb3d0feabf2ee3320c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 4/5] fix: reject node orders that contain a node twice

---
 src/fast_graph_builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fast_graph_builder.rs b/src/fast_graph_builder.rs
index 19137cc..0f8f659 100644
--- a/src/fast_graph_builder.rs
+++ b/src/fast_graph_builder.rs
@@ -76,6 +76,13 @@ impl FastGraphBuilder {
                 "The given order must have as many nodes as the input graph",
             ));
         }
+        let mut found = vec![false; order.len()];
+        for node in order.iter().cloned().filter(|n| *n < order.len()) {
+            if found[node] {
+                return Err(format!("The given order contains node {} twice", node));
+            }
+            found[node] = true;
+        }
         let mut builder = FastGraphBuilder::new(input_graph);
         builder.run_contraction_with_order(input_graph, order, params);
         Ok(builder.fast_graph)
-- 
2.43.0


From 400c5c9ec600837cd3bf88e550454e67855d6a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 5/5] fix: unpack shortcuts without recursion, so deeply nested
 ones do not overflow the stack

---
 src/path_calculator.rs | 92 ++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index f5cc1bd..8e729ea 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -25,6 +25,7 @@ use crate::constants::INVALID_NODE;
 use crate::constants::WEIGHT_MAX;
 use crate::constants::{EdgeId, NodeId};
 use crate::fast_graph::FastGraph;
+use crate::fast_graph::FastGraphEdge;
 use crate::heap_item::HeapItem;
 use crate::shortest_path::ShortestPath;
 use crate::valid_flags::ValidFlags;
@@ -277,70 +278,39 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        let edge = &graph.edges_fwd[edge_id];
+        PathCalculator::unpack(graph, nodes, edge, edge.base_node, reverse);
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        let edge = &graph.edges_bwd[edge_id];
+        PathCalculator::unpack(graph, nodes, edge, edge.adj_node, reverse);
+    }
+
+    /// Unpacks the given edge that starts at the given node. We do not use recursion here, because
+    /// shortcuts can be nested as deeply as there are nodes in the graph.
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge: &FastGraphEdge,
+        from: NodeId,
+        reverse: bool,
+    ) {
+        let mut stack = vec![(edge, from)];
+        while let Some((edge, from)) = stack.pop() {
+            if !edge.is_shortcut() {
+                nodes.push(from);
+                continue;
+            }
+            let in_edge = &graph.edges_bwd[edge.replaced_in_edge];
+            let out_edge = &graph.edges_fwd[edge.replaced_out_edge];
+            if reverse {
+                stack.push((in_edge, in_edge.adj_node));
+                stack.push((out_edge, out_edge.base_node));
+            } else {
+                stack.push((out_edge, out_edge.base_node));
+                stack.push((in_edge, in_edge.adj_node));
+            }
         }
     }
 
-- 
2.43.0

