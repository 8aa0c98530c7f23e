From 5ee1c4c08be2be8c59ccd9cf3e543918bf933e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:24 +0000
Subject: [PATCH 01/50] fix: contraction hierarchy path unpacking

The node ranks and node ids were mixed up and the shortcuts were looked up
between the wrong nodes, so path retrieval panicked for almost every query.
---
 .../src/algo/contraction_hierarchy/query.rs   | 79 +++++++++----------
 1 file changed, 36 insertions(+), 43 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..89929a4 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,51 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
+    // Path unpacking: collect the up-down path of the query from the predecessors
+    // and recursively replace each shortcut by the two edges over its middle node.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
-        }
-
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
+        let (forward_middle_nodes, backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
 
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
+        let mut packed_path = vec![self.meeting_node];
+        while *packed_path.last().unwrap() != from {
+            packed_path.push(self.forward_data.predecessors[*packed_path.last().unwrap() as usize].0);
+        }
+        packed_path.reverse();
+        while *packed_path.last().unwrap() != to {
+            packed_path.push(self.backward_data.predecessors[*packed_path.last().unwrap() as usize].0);
+        }
 
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
-                }
+        // the outgoing edges of each node lead to higher ranked nodes, both in the forward and the backward graph
+        let shortcut_middle = |tail: NodeId, head: NodeId| {
+            let (graph, middle_nodes, low, high) = if tail < head {
+                (&self.forward, forward_middle_nodes, tail, head)
+            } else {
+                (&self.backward, backward_middle_nodes, head, tail)
+            };
+            let EdgeIdT(edge) = graph.edge_indices(low, high).min_by_key(|&EdgeIdT(edge)| graph.link(edge).weight).unwrap();
+            middle_nodes[edge as usize]
+        };
+
+        let mut path = vec![from];
+        // nodes still to be reached, the next one on top
+        let mut stack: Vec<NodeId> = packed_path.into_iter().skip(1).rev().collect();
+        while let Some(&node) = stack.last() {
+            let middle = shortcut_middle(*path.last().unwrap(), node);
+            if middle < self.forward.num_nodes() as NodeId {
+                stack.push(middle);
+            } else {
+                path.push(node);
+                stack.pop();
             }
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
-
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
     }
 }
 
-- 
2.43.0


From d65b5b5e7dd84f5b682cfd9d3b2d743bbe73a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:59 +0000
Subject: [PATCH 02/50] fix: overlay left the first uncontracted node half
 removed

contract_partially split off one node too many before it stopped, so the edges
of the lowest core node were lost.
---
 engine/src/algo/contraction_hierarchy/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..d085144 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -150,7 +150,7 @@ impl ContractionGraph {
     }
 
     // contract a fixed number of nodes
-    fn contract_partially(&mut self, mut contraction_count: usize) {
+    fn contract_partially(&mut self, contraction_count: usize) {
         // We utilize split borrows to make node contraction work well with rusts borrowing rules.
         // The graph representation already contains the node in order of increasing rank.
         // We iteratively split of the lowest ranked node.
@@ -163,13 +163,12 @@ impl ContractionGraph {
         // witness search dijkstra data
         let mut data = (DijkstraData::new(graph.nodes.len()), DijkstraData::new(graph.nodes.len()));
 
-        // split of the lowest node, the one that will be contracted
-        while let Some((node, mut subgraph)) = graph.remove_lowest() {
-            if contraction_count == 0 {
-                break;
-            } else {
-                contraction_count -= 1;
-            }
+        for _ in 0..contraction_count {
+            // split of the lowest node, the one that will be contracted
+            let (node, mut subgraph) = match graph.remove_lowest() {
+                Some(split) => split,
+                None => break,
+            };
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
-- 
2.43.0


From a08ea87e4922476a5872bee722437e3794db662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 03/50] fix: distributing CCH edges to threads when there are
 few of them

rebuild_customized_perfect (and the copies of its code for multi metric potentials)
assumed that there are at least as many chunks of edges as threads times four and
that node 0 has an upward edge, so perfect customization panicked on small or
sparse graphs.
---
 .../customization.rs                             |  8 +-------
 .../customization/parallelization.rs             | 11 +++++++++++
 engine/src/algo/td_astar.rs                      | 16 ++--------------
 engine/src/algo/traffic_aware/td_traffic_pots.rs | 16 ++--------------
 4 files changed, 16 insertions(+), 35 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..ec81a2d 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -457,13 +457,7 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
 
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
-            let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
-                .collect();
+            let first_node_of_chunk = first_nodes_of_chunks(cch.forward_tail(), n, k);
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
index 1bcd425..37ac40f 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
@@ -406,3 +406,14 @@ where
         }
     }
 }
+
+/// Distribute all nodes into exactly `k` consecutive (possibly empty) chunks with roughly the same number of edges each.
+/// Chunk `i` contains the nodes from the `i`th (inclusive) to the `i + 1`th (exclusive) returned node.
+pub fn first_nodes_of_chunks(tail: &[NodeId], n: usize, k: usize) -> Vec<usize> {
+    let target_edges_per_chunk = std::cmp::max(1, (tail.len() + k - 1) / k);
+    let mut first_nodes: Vec<_> = tail.chunks(target_edges_per_chunk).map(|chunk| chunk[0] as usize).collect();
+    // there might be less chunks than requested, and nodes without edges in front
+    first_nodes.resize(k + 1, n);
+    first_nodes[0] = 0;
+    first_nodes
+}
diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index d1d46df..469ddb4 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -317,13 +317,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::first_nodes_of_chunks(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -1094,13 +1088,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::first_nodes_of_chunks(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index 20b00ed..f44ef50 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -218,13 +218,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::first_nodes_of_chunks(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -884,13 +878,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::first_nodes_of_chunks(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
-- 
2.43.0


From f10069201714b90d5ad5f3285f96cc92e7ce16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:58 +0000
Subject: [PATCH 04/50] fix: BitVec::set_all set bits behind the end, which
 count_ones counted

---
 engine/src/datastr/rank_select_map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..004afbd 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -91,6 +91,11 @@ impl BitVec {
         for val in &mut self.data {
             *val = !0;
         }
+        // the bits behind the end have to stay zero
+        let used_bits = self.size % STORAGE_BITS;
+        if used_bits > 0 {
+            *self.data.last_mut().unwrap() = (1 << used_bits) - 1;
+        }
     }
 
     /// The total number of bits set to 1.
-- 
2.43.0


From 4eb5b6f6fedb3b22dc9a2acfdbf034e9c92abdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 05/50] fix: id map inversion behind blocks without entries

InvertableRankSelectMap::inverse picked an arbitrary one of several blocks with the same
prefix sum and panicked when it was an empty one.
---
 engine/src/datastr/rank_select_map.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 004afbd..d23521a 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -335,10 +335,9 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // empty blocks have the same prefix sum as their successor, so we need the last block starting at or before value
+        let block_index =
+            self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].partition_point(|&prefix_sum| prefix_sum <= value) - 1 + self.blocks[group];
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From 14d7512a11e60bb27469ea638544bed39a306bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 06/50] fix: path potentials got circular parents on zero
 weight cycles

Unpacking the path of the parent may already unpack the node itself.
---
 engine/src/algo/ch_potentials.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..f84ad56 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -282,6 +282,10 @@ impl<'a, const FLIP_UNPACKING: bool> CCHPotentialWithPathUnpacking<'a, FLIP_UNPA
         }
         let parent_dist = self.potential(parent).unwrap();
         self.unpack_path(NodeIdT(parent));
+        if self.path_unpacked.get(node as usize) {
+            // with zero arcs, node may be on the path of parent, and already got its final parent
+            return;
+        }
 
         debug_assert!(self_dist >= parent_dist, "{:#?}", (node, parent, self_dist, parent_dist));
         let (down, up) = if parent > node {
-- 
2.43.0


From 227068b977d02891bff1668a7c96087d75442497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 07/50] fix: bucket CH potential asserted that the wrong node
 is final

The assertion about the head failed in debug builds for every node with upward edges.
---
 engine/src/algo/ch_potentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index f84ad56..21286f2 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -555,7 +555,7 @@ impl<GF: LinkIterGraph, GB: LinkIterGraph> BucketCHPotential<GF, GB> {
                 num_pot_computations,
                 num_targets,
             );
-            debug_assert!(pot_final.get(node as usize));
+            debug_assert!(pot_final.get(l.node as usize));
             let (potentials, upper_dists) = potentials.split_at_mut(l.node as usize);
             let head_dists = upper_dists[0].as_ref().unwrap();
             let self_dists = potentials[node as usize].as_mut().unwrap();
-- 
2.43.0


From 801e66888fafaf30ee53adab28150ed6e76cbbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 08/50] fix: bucket CH selection on hierarchies with infinite
 edges

Terminals were added to buckets once per infinite edge, so buckets grew exponentially.
---
 engine/src/algo/ch_potentials.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 21286f2..378c615 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -693,10 +693,13 @@ where
 
             for (NodeIdT(low_neighbor), weight) in self.incoming[node as usize].drain(..) {
                 for &(terminal, dist) in &self.distances[low_neighbor as usize] {
-                    if self.terminal_dists[terminal as usize] == INFINITY {
-                        self.used_terminals.push(NodeIdT(terminal));
+                    // also skips infinite edges, which would add each terminal several times
+                    if dist + weight < self.terminal_dists[terminal as usize] {
+                        if self.terminal_dists[terminal as usize] == INFINITY {
+                            self.used_terminals.push(NodeIdT(terminal));
+                        }
+                        self.terminal_dists[terminal as usize] = dist + weight;
                     }
-                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist + weight);
                 }
             }
 
-- 
2.43.0


From 4bb44bc2cc2253d42aa0c701cab2fe1c45b0bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 09/50] fix: bucket CCH nearest neighbor query returned
 unreachable targets

---
 .../query/nearest_neighbor.rs                                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..7535a78 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -215,6 +215,10 @@ impl<'a> BCCHNearestNeighbor<'a> {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
+                    if dist >= INFINITY {
+                        break; // unreachable
+                    }
+
                     if dist >= self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) && self.closest_targets.len() >= k {
                         break;
                     }
-- 
2.43.0


From 6d7bf4919b331ab45ee8da7f583f17d7813b2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:01 +0000
Subject: [PATCH 10/50] fix: separator based nearest neighbor query missed
 targets in the cell of the source

---
 .../query/nearest_neighbor.rs                         | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 7535a78..d4288c0 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -36,6 +36,7 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
         self.one_to_many.init(source);
+        let source_rank = self.cch.node_order().rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -100,9 +101,15 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
                 for child in &cell.children {
                     let top_cell_node = child.nodes.highest_ranked_node().unwrap();
                     let top_node_out_edges = self.cch.neighbor_edge_indices_usize(top_cell_node);
+                    let child_nodes_range = top_cell_node + 1 - child.num_nodes as NodeId..top_cell_node + 1;
                     let mut lower_bound_dist = INFINITY;
-                    for &boundary in &self.cch.head()[top_node_out_edges] {
-                        lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
+                    if child_nodes_range.contains(&source_rank) {
+                        // targets in the cell of the source can be closer than the boundary
+                        lower_bound_dist = 0;
+                    } else {
+                        for &boundary in &self.cch.head()[top_node_out_edges] {
+                            lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
+                        }
                     }
                     self.stack.push((lower_bound_dist, child));
                 }
-- 
2.43.0


From 111f94566b22c629b92807fd8f1c87dd96086d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:38 +0000
Subject: [PATCH 11/50] fix: core A* missed paths inside of components attached
 to the core

Queries between nodes attached to the same core node (or to none) stopped as
soon as the core was reached, and restarted with labels already set.
---
 engine/src/algo/ch_potentials/query.rs | 97 +++++++++++++++-----------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..fc8bd26 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -93,9 +93,22 @@ where
         potential.init(query.to());
         report!("lower_bound", potential.potential(query.from()).unwrap_or(INFINITY));
 
-        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
-        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core)?;
+        // node through which the search has to enter or leave the core, if there is any
+        let core_access = |node| {
+            if virtual_topocore.node_type(node).in_core() {
+                Some(node)
+            } else {
+                virtual_topocore.bridge_node(node)
+            }
+        };
+        let core_passage = match (core_access(query.from()), core_access(query.to())) {
+            (Some(into_core), Some(out_of_core)) if into_core != out_of_core => Some((into_core, out_of_core)),
+            // both nodes are attached to the same core node (or not to the core at all), so the core can be ignored
+            _ => None,
+        };
+
+        let mut to_core_pushs = 0;
+        let mut to_core_relaxed = 0;
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -104,51 +117,55 @@ where
             DijkstraInit::from_query(&query),
         );
 
-        while let Some(node) = comp_search.next_step_with_potential(|node| potential.potential(node)) {
-            num_queue_pops += 1;
-            inspect(node, &virtual_topocore.order, &comp_search, potential);
+        if let Some((into_core, out_of_core)) = core_passage {
+            let into_core_pot = potential.potential(into_core)?;
 
-            if comp_search
-                .queue()
-                .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
-                .unwrap_or(true)
-            {
-                break;
+            while let Some(node) = comp_search.next_step_with_potential(|node| potential.potential(node)) {
+                num_queue_pops += 1;
+                inspect(node, &virtual_topocore.order, &comp_search, potential);
+
+                if comp_search
+                    .queue()
+                    .peek()
+                    .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                    .unwrap_or(true)
+                {
+                    break;
+                }
             }
-        }
 
-        if *comp_search.tentative_distance(into_core) >= INFINITY {
-            return None;
-        }
+            if *comp_search.tentative_distance(into_core) >= INFINITY {
+                return None;
+            }
 
-        let to_core_pushs = comp_search.num_queue_pushs();
-        let to_core_relaxed = comp_search.num_relaxed_arcs();
+            to_core_pushs = comp_search.num_queue_pushs();
+            to_core_relaxed = comp_search.num_relaxed_arcs();
 
-        let core_dist = {
-            let _ctxt = push_context("core_search");
-            let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
-            let mut core_search = TopoDijkstraRun::continue_query(
-                &self.core_search.graph,
+            {
+                let _ctxt = push_context("core_search");
+                let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
+                let mut core_search = TopoDijkstraRun::continue_query(
+                    &self.core_search.graph,
+                    &mut self.core_search.dijkstra_data,
+                    &mut self.core_search.ops,
+                    into_core,
+                );
+                SkipLowDegServer::distance_manually_initialized(
+                    &mut core_search,
+                    core_query,
+                    potential,
+                    |n, d, p| inspect(n, &virtual_topocore.order, d, p),
+                    INFINITY,
+                )?;
+            }
+
+            comp_search = TopoDijkstraRun::continue_query(
+                &self.comp_graph,
                 &mut self.core_search.dijkstra_data,
                 &mut self.core_search.ops,
-                into_core,
+                out_of_core,
             );
-            SkipLowDegServer::distance_manually_initialized(
-                &mut core_search,
-                core_query,
-                potential,
-                |n, d, p| inspect(n, &virtual_topocore.order, d, p),
-                INFINITY,
-            )
-        };
-
-        let mut comp_search = TopoDijkstraRun::continue_query(
-            &self.comp_graph,
-            &mut self.core_search.dijkstra_data,
-            &mut self.core_search.ops,
-            if core_dist.is_some() { out_of_core } else { query.from() },
-        );
+        }
 
         while let Some(node) = comp_search.next_step_with_potential(|node| potential.potential(node)) {
             num_queue_pops += 1;
-- 
2.43.0


From 71ebc9dac68ba0b785dfaeefc27823799a51b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 12/50] fix: nodes outside of the biggest bcc were treated as
 core nodes

When there are no low degree nodes in the biggest biconnected component, the
degree classes extended into the nodes behind it, which are not sorted by degree.
---
 engine/src/algo/topocore.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..18f54f9 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -597,8 +597,16 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
             bcc.push(components[node as usize] - 1);
         }
     }
-    let deg3 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(n as usize);
-    let deg2 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(n as usize);
+    // only the nodes of the biggest bcc are sorted by degree
+    let core_order = &new_order[..biggest_bcc_size];
+    let deg3 = core_order
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 4)
+        .unwrap_or(biggest_bcc_size);
+    let deg2 = core_order
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 3)
+        .unwrap_or(biggest_bcc_size);
 
     report!("biggest_bcc_size", biggest_bcc_size);
     report!("deg2", deg2);
-- 
2.43.0


From 0a21b1ec73c5ff9fdf55e0f77667c07906fb66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:07 +0000
Subject: [PATCH 13/50] fix: bidirectional core search on graphs without edges
 out of the core missed paths

The stopping criteria assume that both searches can reach all nodes. An exhausted
forward search, or the sum of both queue keys, tell nothing about paths which
only the backward search can find.
---
 engine/src/algo/topocore.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 18f54f9..15f5d7a 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -689,21 +689,17 @@ impl<Graph> VirtualTopocoreGraph<Graph> {
         Graph: BuildPermutated<G>,
         Graph: BuildPermutated<Graph>,
     {
+        // Both graphs have to contain all edges.
+        // Pruning edges out of the core in both directions would break the stopping criteria of bidirectional searches.
         let reversed = Graph::reversed(graph);
         let topocore = virtual_topocore(graph);
         (
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<G>>::permutated_filtered(&graph, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<G>>::permutated(graph, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<Graph>>::permutated_filtered(&reversed, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<Graph>>::permutated(&reversed, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             topocore,
-- 
2.43.0


From 1c56ad42fc93635cfc4dab685c8cd126e783d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 14/50] fix: symmetric degree of nodes with more than 255
 neighbors was truncated

---
 engine/src/algo/topocore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 15f5d7a..3e3503e 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -523,7 +523,10 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
     let reversed = UnweightedOwnedGraph::reversed(graph);
 
     let symmetric_degrees = (0..graph.num_nodes())
-        .map(|node| symmetric_degree(graph.link_iter(node as NodeId), LinkIterable::<NodeIdT>::link_iter(&reversed, node as NodeId)) as u8)
+        .map(|node| {
+            let degree = symmetric_degree(graph.link_iter(node as NodeId), LinkIterable::<NodeIdT>::link_iter(&reversed, node as NodeId));
+            min(degree, u8::MAX as usize) as u8
+        })
         .collect::<Vec<u8>>();
 
     let biggest = biconnected(&UndirectedGraph { ins: &reversed, outs: graph })
-- 
2.43.0


From 664770194bf06a186811618e1f3c343fb6b325a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:04 +0000
Subject: [PATCH 15/50] verification hook: instrumented atomics (cfg
 verif_hooks)

---
 engine/src/algo/ch_potentials/query.rs   |   3 +
 engine/src/datastr/timestamped_vector.rs |   8 +-
 engine/src/lib.rs                        |   2 +
 engine/src/verif_atomic.rs               | 161 +++++++++++++++++++++++
 4 files changed, 172 insertions(+), 2 deletions(-)
 create mode 100644 engine/src/verif_atomic.rs

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index fc8bd26..46197a5 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -647,6 +647,9 @@ where
 
 use std::cell::*;
 use std::marker::PhantomData;
+#[cfg(verif_hooks)]
+use crate::verif_atomic::AtomicU32;
+#[cfg(not(verif_hooks))]
 use std::sync::atomic::AtomicU32;
 
 pub struct BiDirServer<P = ZeroPotential, D = ChooseMinKeyDir> {
diff --git a/engine/src/datastr/timestamped_vector.rs b/engine/src/datastr/timestamped_vector.rs
index f66e0a0..64ff7bf 100644
--- a/engine/src/datastr/timestamped_vector.rs
+++ b/engine/src/datastr/timestamped_vector.rs
@@ -136,10 +136,14 @@ impl<T: Reset> IndexMut<usize> for TimestampedVector<T> {
     }
 }
 
-use std::sync::atomic::{AtomicU64, Ordering};
+#[cfg(verif_hooks)]
+use crate::verif_atomic::AtomicU64;
+#[cfg(not(verif_hooks))]
+use std::sync::atomic::AtomicU64;
+use std::sync::atomic::Ordering;
 
 pub struct AtomicDists {
-    data: Box<[std::sync::atomic::AtomicU64]>,
+    data: Box<[AtomicU64]>,
     current: u32,
 }
 
diff --git a/engine/src/lib.rs b/engine/src/lib.rs
index 69aa94d..850cdbe 100644
--- a/engine/src/lib.rs
+++ b/engine/src/lib.rs
@@ -28,6 +28,8 @@ pub mod export;
 pub mod io;
 pub mod link_speed_estimates;
 pub mod util;
+#[cfg(verif_hooks)]
+pub mod verif_atomic;
 
 /// Build time information for experiments.
 #[allow(dead_code)]
diff --git a/engine/src/verif_atomic.rs b/engine/src/verif_atomic.rs
new file mode 100644
index 0000000..bf0327b
--- /dev/null
+++ b/engine/src/verif_atomic.rs
@@ -0,0 +1,161 @@
+//! Instrumented atomics. Only part of the build with `--cfg verif_hooks`.
+//! Every access is routed through the `Memory` installed for the current thread, which may delay it or schedule other threads first.
+
+use std::cell::Cell;
+use std::sync::atomic as std_atomic;
+pub use std::sync::atomic::Ordering;
+
+/// A memory location. Identified by the order in which the atomics were created on the current thread.
+#[derive(Clone, Copy)]
+pub enum Loc<'a> {
+    U32(&'a AtomicU32),
+    U64(&'a AtomicU64),
+}
+
+impl Loc<'_> {
+    pub fn id(&self) -> u64 {
+        match self {
+            Loc::U32(l) => l.1,
+            Loc::U64(l) => l.1,
+        }
+    }
+    pub fn read(&self) -> u64 {
+        match self {
+            Loc::U32(l) => l.0.load(Ordering::SeqCst) as u64,
+            Loc::U64(l) => l.0.load(Ordering::SeqCst),
+        }
+    }
+    pub fn write(&self, val: u64) {
+        match self {
+            Loc::U32(l) => l.0.store(val as u32, Ordering::SeqCst),
+            Loc::U64(l) => l.0.store(val, Ordering::SeqCst),
+        }
+    }
+}
+
+pub trait Memory {
+    fn load(&self, loc: Loc, order: Ordering) -> u64;
+    fn store(&self, loc: Loc, val: u64, order: Ordering);
+    /// atomically replace the value, if the function returns one. Returns the previous value.
+    fn rmw(&self, loc: Loc, f: &mut dyn FnMut(u64) -> Option<u64>, order: Ordering) -> u64;
+}
+
+struct Direct;
+
+impl Memory for Direct {
+    fn load(&self, loc: Loc, _order: Ordering) -> u64 {
+        loc.read()
+    }
+    fn store(&self, loc: Loc, val: u64, _order: Ordering) {
+        loc.write(val)
+    }
+    fn rmw(&self, loc: Loc, f: &mut dyn FnMut(u64) -> Option<u64>, _order: Ordering) -> u64 {
+        match loc {
+            Loc::U32(l) => l
+                .0
+                .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| f(v as u64).map(|v| v as u32))
+                .unwrap_or_else(|v| v) as u64,
+            Loc::U64(l) => l.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| f(v)).unwrap_or_else(|v| v),
+        }
+    }
+}
+
+thread_local! {
+    static NEXT_ID: Cell<u64> = Cell::new(0);
+    static MEMORY: Cell<Option<&'static dyn Memory>> = Cell::new(None);
+}
+
+pub fn set_memory(m: Option<&'static dyn Memory>) {
+    MEMORY.with(|c| c.set(m))
+}
+
+/// restart the numbering of the memory locations created on the current thread
+pub fn reset_ids() {
+    NEXT_ID.with(|c| c.set(0))
+}
+
+fn memory() -> &'static dyn Memory {
+    MEMORY.with(|c| c.get()).unwrap_or(&Direct)
+}
+
+macro_rules! instrumented {
+    ($name:ident, $int:ty, $loc:ident) => {
+        #[derive(Debug)]
+        pub struct $name(std_atomic::$name, u64);
+
+        impl Default for $name {
+            fn default() -> Self {
+                Self::new(0)
+            }
+        }
+
+        impl $name {
+            pub fn new(v: $int) -> Self {
+                let id = NEXT_ID.with(|c| c.replace(c.get() + 1));
+                Self(std_atomic::$name::new(v), id)
+            }
+            fn loc(&self) -> Loc<'_> {
+                Loc::$loc(self)
+            }
+            fn rmw(&self, order: Ordering, mut f: impl FnMut($int) -> $int) -> $int {
+                memory().rmw(self.loc(), &mut |v| Some(f(v as $int) as u64), order) as $int
+            }
+            pub fn get_mut(&mut self) -> &mut $int {
+                self.0.get_mut()
+            }
+            pub fn into_inner(self) -> $int {
+                self.0.into_inner()
+            }
+            pub fn load(&self, order: Ordering) -> $int {
+                memory().load(self.loc(), order) as $int
+            }
+            pub fn store(&self, val: $int, order: Ordering) {
+                memory().store(self.loc(), val as u64, order)
+            }
+            pub fn swap(&self, val: $int, order: Ordering) -> $int {
+                self.rmw(order, |_| val)
+            }
+            pub fn fetch_add(&self, val: $int, order: Ordering) -> $int {
+                self.rmw(order, |v| v.wrapping_add(val))
+            }
+            pub fn fetch_sub(&self, val: $int, order: Ordering) -> $int {
+                self.rmw(order, |v| v.wrapping_sub(val))
+            }
+            pub fn fetch_min(&self, val: $int, order: Ordering) -> $int {
+                self.rmw(order, |v| v.min(val))
+            }
+            pub fn fetch_max(&self, val: $int, order: Ordering) -> $int {
+                self.rmw(order, |v| v.max(val))
+            }
+            pub fn compare_exchange(&self, current: $int, new: $int, success: Ordering, _failure: Ordering) -> Result<$int, $int> {
+                let prev = memory().rmw(self.loc(), &mut |v| if v as $int == current { Some(new as u64) } else { None }, success) as $int;
+                if prev == current {
+                    Ok(prev)
+                } else {
+                    Err(prev)
+                }
+            }
+            pub fn compare_exchange_weak(&self, current: $int, new: $int, success: Ordering, failure: Ordering) -> Result<$int, $int> {
+                self.compare_exchange(current, new, success, failure)
+            }
+            pub fn fetch_update(
+                &self,
+                set_order: Ordering,
+                fetch_order: Ordering,
+                mut f: impl FnMut($int) -> Option<$int>,
+            ) -> Result<$int, $int> {
+                let mut prev = self.load(fetch_order);
+                while let Some(next) = f(prev) {
+                    match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                        x @ Ok(_) => return x,
+                        Err(next_prev) => prev = next_prev,
+                    }
+                }
+                Err(prev)
+            }
+        }
+    };
+}
+
+instrumented!(AtomicU32, u32, U32);
+instrumented!(AtomicU64, u64, U64);
-- 
2.43.0


From 84dff2b31c246448fc4d3c9fcf05baf07794889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 16/50] fix: permutated bidirectional potential did not forward
 the one sided stop criteria

---
 engine/src/algo/a_star.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index ed1313a..9f2cc2a 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -157,10 +157,10 @@ impl<P: BiDirPotential> BiDirPotential for PotentialForPermutated<P> {
         self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)
     }
     fn stop_forward(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
-        self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)
+        self.potential.stop_forward(fw_min_queue, bw_min_queue, stop_dist)
     }
     fn stop_backward(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
-        self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)
+        self.potential.stop_backward(fw_min_queue, bw_min_queue, stop_dist)
     }
     fn prune_forward(&mut self, NodeIdT(head): NodeIdT, fw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> bool {
         self.potential
-- 
2.43.0


From 87033a0d82e7bee696b06acb389ff8dee8b0ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 17/50] fix: parallel bidirectional search dropped the path
 found at a skipped target

---
 engine/src/algo/ch_potentials/query.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 46197a5..0bcf326 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1155,14 +1155,11 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                     }
                 }
 
-                if meeting_node.is_some() {
-                    (meeting_node, num_queue_pops)
+                // skipped low degree nodes do not trigger the callback, so the target may have been reached unnoticed
+                if forward_dijkstra.tentative_distance(query.to()) < fw_tentative_distance {
+                    (Some(query.to()), num_queue_pops)
                 } else {
-                    if forward_dijkstra.tentative_distance(query.to()) < INFINITY {
-                        (Some(query.to()), num_queue_pops)
-                    } else {
-                        (None, num_queue_pops)
-                    }
+                    (meeting_node, num_queue_pops)
                 }
             },
             || {
@@ -1207,14 +1204,11 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                     }
                 }
 
-                if meeting_node.is_some() {
-                    (meeting_node, num_queue_pops)
+                // skipped low degree nodes do not trigger the callback, so the target may have been reached unnoticed
+                if backward_dijkstra.tentative_distance(query.from()) < bw_tentative_distance {
+                    (Some(query.from()), num_queue_pops)
                 } else {
-                    if backward_dijkstra.tentative_distance(query.from()) < INFINITY {
-                        (Some(query.from()), num_queue_pops)
-                    } else {
-                        (None, num_queue_pops)
-                    }
+                    (meeting_node, num_queue_pops)
                 }
             },
         );
-- 
2.43.0


From a83a21965767561884940e1cd4acdd18d9f9ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:12 +0000
Subject: [PATCH 18/50] fix: metric merging overflowed when metrics differ by
 several closed edges

---
 engine/src/algo/metric_merging.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/metric_merging.rs b/engine/src/algo/metric_merging.rs
index f753247..1e5406f 100644
--- a/engine/src/algo/metric_merging.rs
+++ b/engine/src/algo/metric_merging.rs
@@ -83,7 +83,8 @@ pub fn merge(metrics: &[&[Weight]], target_size: usize) -> Vec<Vec<usize>> {
                             }
                             let w1 = merged[idx1].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();
                             let w2 = merged[idx2].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();
-                            sum_of_squared_diffs += w1.abs_diff(w2) as u64 * w1.abs_diff(w2) as u64;
+                            // saturate, the squared differences of a few closed edges already exceed the range of u64
+                            sum_of_squared_diffs = sum_of_squared_diffs.saturating_add(w1.abs_diff(w2) as u64 * w1.abs_diff(w2) as u64);
                             edges_checked += 1;
                         }
                         if edges_checked as usize >= m {
-- 
2.43.0


From b7d6261153880bfab31017a9039c641417b95d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:52 +0000
Subject: [PATCH 19/50] fix: time-dependent Dijkstra server reported the
 arrival time instead of the travel time

---
 engine/src/algo/dijkstra/query/dijkstra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/dijkstra/query/dijkstra.rs b/engine/src/algo/dijkstra/query/dijkstra.rs
index 7d064a4..5617ce1 100644
--- a/engine/src/algo/dijkstra/query/dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/dijkstra.rs
@@ -57,7 +57,7 @@ where
         while let Some(node) = dijkstra.next_step_with_potential(|node| potential.potential(node)) {
             num_queue_pops += 1;
             if node == to {
-                result = Some(*dijkstra.tentative_distance(node));
+                result = Some(*dijkstra.tentative_distance(node) - query.initial_state());
                 break;
             }
         }
-- 
2.43.0


From 9205d5661e151348d1b740c77c64167ca474a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:27 +0000
Subject: [PATCH 20/50] fix: average of travel time functions failed for
 constant functions and ranges over midnight, and ignored clipping

---
 .../time_dependent/piecewise_linear_function.rs     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..8227437 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,14 +30,21 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
-        let (first_range, second_range) = monotone_range.split(period());
+        let (first_range, mut second_range) = monotone_range.split(period());
+        second_range.start -= period();
+        second_range.end -= period();
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-            sum += u64::from(seg.line.line().from.val) * u64::from(delta);
-            sum += u64::from(seg.line.line().to.val) * u64::from(delta);
+            // only the part of the segment which is within the range counts
+            sum += u64::from(self.evaluate(seg.valid.start)) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.end)) * u64::from(delta);
         }
         (sum / 2 / u64::from(total_time)) as Weight
     }
-- 
2.43.0


From 804cb39381d745319c1ff9d11ebb22a38c9c23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:27 +0000
Subject: [PATCH 21/50] fix: upper bound of travel times in a range was always
 infinite

---
 .../time_dependent/piecewise_linear_function.rs    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 8227437..3f0852e 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -108,23 +108,23 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     pub fn upper_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
-            return INFINITY;
+            return 0;
         }
-        let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (first_idx, first_upper) = match self.departure_time.locate(range.start, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(_lower_index, upper_index) => (upper_index, self.evaluate(range.start)),
         };
 
-        let (last_idx, last_lower) = match self.departure_time.locate(range.end, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (last_idx, last_upper) = match self.departure_time.locate(range.end, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),
         };
 
         self.travel_time[first_idx..=last_idx]
             .iter()
             .copied()
-            .chain(std::iter::once(first_lower))
-            .chain(std::iter::once(last_lower))
+            .chain(std::iter::once(first_upper))
+            .chain(std::iter::once(last_upper))
             .max()
             .unwrap()
     }
-- 
2.43.0


From b5640d5b94e7e2e7238c81eb2cde596bd68aced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:52 +0000
Subject: [PATCH 22/50] fix: travel time bounds of ranges that end after the
 second day boundary were too tight

---
 .../piecewise_linear_function.rs              | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 3f0852e..166bbc8 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -36,9 +36,7 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
-        let (first_range, mut second_range) = monotone_range.split(period());
-        second_range.start -= period();
-        second_range.end -= period();
+        let (first_range, second_range) = Self::split_into_days(monotone_range);
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
@@ -66,12 +64,27 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        if range.is_empty() {
+            return INFINITY;
+        }
+        if range.end - range.start >= period() {
+            return self.lower_bound();
+        }
+
+        let (first_range, second_range) = Self::split_into_days(range);
         std::cmp::min(self.lower_bound_in_included(first_range), self.lower_bound_in_included(second_range))
     }
 
+    // The parts of a range of less than a period before and after the wrap around, each within the period
+    fn split_into_days(range: Range<Timestamp>) -> (Range<Timestamp>, Range<Timestamp>) {
+        let start = range.start % period();
+        let end = start + (range.end - range.start);
+        let (first_range, mut second_range) = (start..end).split(period());
+        second_range.start -= period();
+        second_range.end -= period();
+        (first_range, second_range)
+    }
+
     pub fn lower_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
             return INFINITY;
@@ -100,9 +113,14 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        if range.is_empty() {
+            return 0;
+        }
+        if range.end - range.start >= period() {
+            return self.upper_bound();
+        }
+
+        let (first_range, second_range) = Self::split_into_days(range);
         std::cmp::max(self.upper_bound_in_included(first_range), self.upper_bound_in_included(second_range))
     }
 
-- 
2.43.0


From 57532063b9edaa1b409a12b02216fa3a23267e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 23/50] fix: lower bound of live travel times ignored fast live
 values and live reports ending with the range

---
 engine/src/datastr/graph/time_dependent/graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..9fb26cb 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -426,8 +426,11 @@ impl PessimisticLiveTDGraph {
     pub fn live_lower_bound(&self, edge_id: EdgeId, now: Timestamp, until: Timestamp) -> Weight {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
-            if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+            if soon <= now {
+                ttf.lower_bound_in_range(now..until)
+            } else if until > soon {
+                // before `soon`, the live value may be faster than anything predicted for later
+                std::cmp::min(live, ttf.lower_bound_in_range(soon..until))
             } else {
                 let tt_soon = ttf.eval(soon);
                 std::cmp::min(live, tt_soon.saturating_add(soon - until))
-- 
2.43.0


From ab662909be5db66355518f674a06170988f2d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 24/50] fix: time-dependent core A* missed paths inside of
 components attached to the core

Same defect as in the static server: queries between nodes attached to the same
core node (or to none) stopped as soon as the core was reached.
---
 engine/src/algo/ch_potentials/td_query.rs | 131 +++++++++++++---------
 1 file changed, 76 insertions(+), 55 deletions(-)

diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..ec3fac9 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -106,9 +106,22 @@ where
         potential.init(query.from(), query.to(), departure);
         report!("lower_bound", potential.potential(query.from(), Some(departure)).unwrap_or(INFINITY));
 
-        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
-        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
+        // node through which the search has to enter or leave the core, if there is any
+        let core_access = |node| {
+            if virtual_topocore.node_type(node).in_core() {
+                Some(node)
+            } else {
+                virtual_topocore.bridge_node(node)
+            }
+        };
+        let core_passage = match (core_access(query.from()), core_access(query.to())) {
+            (Some(into_core), Some(out_of_core)) if into_core != out_of_core => Some((into_core, out_of_core)),
+            // both nodes are attached to the same core node (or not to the core at all), so the core can be ignored
+            _ => None,
+        };
+
+        let mut to_core_pushs = 0;
+        let mut to_core_relaxed = 0;
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -117,67 +130,75 @@ where
             DijkstraInit::from_query(&query),
         );
 
-        while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
-            num_queue_pops += 1;
-            inspect(node, &virtual_topocore.order, &comp_search, potential);
+        if let Some((into_core, out_of_core)) = core_passage {
+            let into_core_pot = potential.potential(into_core, None)?;
 
-            if comp_search
-                .queue()
-                .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
-                .unwrap_or(true)
-            {
-                break;
+            while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
+                num_queue_pops += 1;
+                inspect(node, &virtual_topocore.order, &comp_search, potential);
+
+                if comp_search
+                    .queue()
+                    .peek()
+                    .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                    .unwrap_or(true)
+                {
+                    break;
+                }
             }
-        }
 
-        let mut pushs = comp_search.num_queue_pushs();
-        let mut relaxed = comp_search.num_relaxed_arcs();
+            if *comp_search.tentative_distance(into_core) >= INFINITY {
+                return None;
+            }
 
-        let core_dist = {
-            let capture = capture_reporting();
-            let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
-            let mut core_search = TopoDijkstraRun::continue_query(
-                &self.core_search.graph,
-                &mut self.core_search.dijkstra_data,
-                &mut self.core_search.ops,
-                into_core,
-            );
-            let res = SkipLowDegServer::distance_manually_initialized(
-                &mut core_search,
-                core_query,
-                potential,
-                |n, d, p| inspect(n, &virtual_topocore.order, d, p),
-                INFINITY,
-            );
+            to_core_pushs = comp_search.num_queue_pushs();
+            to_core_relaxed = comp_search.num_relaxed_arcs();
+
+            {
+                let capture = capture_reporting();
+                let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
+                let mut core_search = TopoDijkstraRun::continue_query(
+                    &self.core_search.graph,
+                    &mut self.core_search.dijkstra_data,
+                    &mut self.core_search.ops,
+                    into_core,
+                );
+                let core_dist = SkipLowDegServer::distance_manually_initialized(
+                    &mut core_search,
+                    core_query,
+                    potential,
+                    |n, d, p| inspect(n, &virtual_topocore.order, d, p),
+                    INFINITY,
+                );
 
-            if let Some(reported) = capture.reported() {
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pops") {
-                    if let Some(num) = number.as_u64() {
-                        num_queue_pops += num as usize;
+                if let Some(reported) = capture.reported() {
+                    if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pops") {
+                        if let Some(num) = number.as_u64() {
+                            num_queue_pops += num as usize;
+                        }
                     }
-                }
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pushs") {
-                    if let Some(num) = number.as_u64() {
-                        pushs += num as usize;
+                    if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pushs") {
+                        if let Some(num) = number.as_u64() {
+                            to_core_pushs += num as usize;
+                        }
                     }
-                }
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_relaxed_arcs") {
-                    if let Some(num) = number.as_u64() {
-                        relaxed += num as usize;
+                    if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_relaxed_arcs") {
+                        if let Some(num) = number.as_u64() {
+                            to_core_relaxed += num as usize;
+                        }
                     }
                 }
-            }
 
-            res
-        };
+                core_dist?;
+            }
 
-        let mut comp_search = TopoDijkstraRun::continue_query(
-            &self.comp_graph,
-            &mut self.core_search.dijkstra_data,
-            &mut self.core_search.ops,
-            if core_dist.is_some() { out_of_core } else { query.from() },
-        );
+            comp_search = TopoDijkstraRun::continue_query(
+                &self.comp_graph,
+                &mut self.core_search.dijkstra_data,
+                &mut self.core_search.ops,
+                out_of_core,
+            );
+        }
 
         while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
             num_queue_pops += 1;
@@ -194,8 +215,8 @@ where
         }
 
         report!("num_queue_pops", num_queue_pops);
-        report!("num_queue_pushs", pushs + comp_search.num_queue_pushs());
-        report!("num_relaxed_arcs", relaxed + comp_search.num_relaxed_arcs());
+        report!("num_queue_pushs", to_core_pushs + comp_search.num_queue_pushs());
+        report!("num_relaxed_arcs", to_core_relaxed + comp_search.num_relaxed_arcs());
         potential.report_stats();
 
         let dist = *comp_search.tentative_distance(query.to());
-- 
2.43.0


From dabf2457b697d6f4566fd4fdf85aee63190b071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 25/50] fix: inverse evaluation added the number of days as
 seconds, debug builds panicked on valid travel time functions

---
 .../piecewise_linear_function.rs                 | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8f6d023..68c3b75 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -85,7 +85,8 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
         }
 
         let wrap_val = self.ipps.first().unwrap().val;
-        let (p, t) = (t - wrap_val).split_of_period();
+        let (times_period, t) = (t - wrap_val).split_of_period();
+        let offset = times_period * FlWeight::from(period());
         let t = t + wrap_val;
 
         let first = self.first().unwrap();
@@ -104,7 +105,7 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
             }
         });
 
-        p + match pos {
+        offset + match pos {
             Ok(i) => unsafe { self.ipps.get_unchecked(i).at },
             Err(i) => {
                 let prev = unsafe { self.ipps.get_unchecked(i - 1) };
@@ -1162,9 +1163,12 @@ impl<'a> PartialPiecewiseLinearFunction<'a> {
             );
         }
         debug_assert!(!start.fuzzy_lt(result[0].at));
-        debug_assert!(start.fuzzy_lt(result[1].at));
-        debug_assert!(!result[result.len() - 1].at.fuzzy_lt(end));
-        debug_assert!(result[result.len() - 2].at.fuzzy_lt(end));
+        // a single point is enough when the result is constant over the full range
+        if !FullRange::VALUE || result.len() > 1 {
+            debug_assert!(start.fuzzy_lt(result[1].at));
+            debug_assert!(!result[result.len() - 1].at.fuzzy_lt(end));
+            debug_assert!(result[result.len() - 2].at.fuzzy_lt(end));
+        }
 
         let ret = (Box::from(&result[..]), better);
         result.clear();
@@ -1759,7 +1763,7 @@ impl<'a> UpdatedPiecewiseLinearFunction<'a> {
 
 impl<'a> PLF for UpdatedPiecewiseLinearFunction<'a> {
     fn evaluate(&self, t: Timestamp) -> FlWeight {
-        debug_assert!(!t.fuzzy_lt(self.update[0].at));
+        debug_assert!(self.update.first().map_or(true, |p| !t.fuzzy_lt(p.at)));
         if self.update.last().map(|p| t <= p.at).unwrap_or(false) {
             PartialPiecewiseLinearFunction::new(self.update).eval(t)
         } else {
-- 
2.43.0


From 04aa126746e0cf9d3b25a5d1a20618fe565e0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:56 +0000
Subject: [PATCH 26/50] fix: switching to another travel time function within a
 segment could drop the point of the switch

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 68c3b75..b23719d 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -199,7 +199,7 @@ impl<'a> PeriodicPiecewiseLinearFunction<'a> {
                     dbg_each!(switchover_val, second_switchover_val, start)
                 );
 
-                if !(target.last() == Some(&f.prev()) || interpolate_linear(target.last().unwrap(), &f.next(), start).fuzzy_eq(switchover_val)) {
+                if !(target.last() == Some(&f.prev()) || interpolate_linear(target.last().unwrap(), &f.cur(), start).fuzzy_eq(switchover_val)) {
                     target.push(TTFPoint {
                         at: start,
                         val: switchover_val,
-- 
2.43.0


From f5f1d44df009d6db01d94cc7a69f82b3b44bbd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 27/50] fix: unreachable targets tripped an assertion of the
 naive profile query

---
 engine/src/algo/catchup/profiles_naive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 3eeefee..d489508 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -316,7 +316,7 @@ impl<'a> Server<'a> {
             dbg_each!(tentative_distance, self.lower_bounds_to_target[self.from as usize])
         );
         debug_assert!(
-            FlWeight::ZERO.fuzzy_eq(self.lower_bounds_to_target[self.to as usize]),
+            FlWeight::ZERO.fuzzy_eq(self.lower_bounds_to_target[self.to as usize]) || tentative_distance.0.fuzzy_eq(FlWeight::INFINITY),
             "{:?}",
             dbg_each!(self.lower_bounds_to_target[self.to as usize])
         );
-- 
2.43.0


From 8737f86d9d85a86ea85900e56b7597e6101c5f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 28/50] fix: partial profile queries panicked when the target
 is not reachable

---
 engine/src/algo/catchup/partial_profiles.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/algo/catchup/partial_profiles.rs b/engine/src/algo/catchup/partial_profiles.rs
index a726bbd..c702e25 100644
--- a/engine/src/algo/catchup/partial_profiles.rs
+++ b/engine/src/algo/catchup/partial_profiles.rs
@@ -228,6 +228,11 @@ impl<'a> Server<'a> {
         report!("elimination_tree_time", timer.get_passed().as_secs_f64() * 1000.0);
         timer.restart();
 
+        // target not reachable at all, so there is nothing to reconstruct
+        if !tentative_distance.0.fuzzy_lt(FlWeight::INFINITY) {
+            return (PartialShortcut::new_finished(start, end, &[], tentative_distance), Vec::new(), Vec::new());
+        }
+
         // elimination tree query done, now we want to retrieve the corridor
 
         let tentative_upper_bound = tentative_distance.1;
-- 
2.43.0


From aad9cfb811e8827c71052c4e6d5e2b0b483edaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 29/50] fix: partial profile queries looked up shortcuts
 outside of the customized graph in it

---
 .../floating_time_dependent/shortcut_graph.rs   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs
index 5a149f8..73e32c3 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs
@@ -927,6 +927,7 @@ impl<'a> ReconstructionGraph<'a> {
         incoming_reconstruction_states: &mut [ReconstructionState],
         outgoing_reconstruction_states: &mut [ReconstructionState],
         buffers: &mut MergeBuffers,
+        lower_and_upper_node: &mut impl FnMut(ShortcutId) -> (NodeId, NodeId),
     ) {
         let edge_sources = shortcut_id.get_with(
             &self.customized_graph.incoming,
@@ -1047,10 +1048,11 @@ impl<'a> ReconstructionGraph<'a> {
             let mut waiting_state = waiting.get_mut_from(incoming_reconstruction_states, outgoing_reconstruction_states);
             waiting_state.missing_deps -= 1;
             if waiting_state.missing_deps == 0 && !waiting_state.requested_times.is_empty() {
+                let (lower_node, upper_node) = lower_and_upper_node(waiting);
                 let new_el = ReconstructionQueueElement {
                     t: waiting_state.requested_times[0].0,
-                    upper_node: *waiting.get_from(&self.customized_graph.incoming.head, &self.customized_graph.outgoing.head),
-                    lower_node: *waiting.get_from(&self.customized_graph.incoming.tail, &self.customized_graph.outgoing.tail),
+                    upper_node,
+                    lower_node,
                     shortcut_id: waiting,
                 };
                 if let Some(Reverse(el)) = queue.get(new_el.as_index()) {
@@ -1086,6 +1088,7 @@ impl<'a> ReconstructionGraph<'a> {
                 shortcut_id.get_mut_from(incoming_reconstruction_states, outgoing_reconstruction_states),
             );
 
+            let customized_graph = self.customized_graph;
             self.cache_iterative_iteration(
                 shortcut_id,
                 &mut state,
@@ -1093,6 +1096,7 @@ impl<'a> ReconstructionGraph<'a> {
                 incoming_reconstruction_states,
                 outgoing_reconstruction_states,
                 buffers,
+                &mut |id| (customized_graph.lower_node(id), customized_graph.upper_node(id)),
             );
 
             std::mem::swap(
@@ -1591,6 +1595,7 @@ impl<'a> PartialProfileGraphWrapper<'a> {
             );
 
             if self.delegate(shortcut_id) {
+                let customized_graph = self.profile_graph.customized_graph;
                 self.profile_graph.cache_iterative_iteration(
                     shortcut_id,
                     &mut state,
@@ -1598,6 +1603,14 @@ impl<'a> PartialProfileGraphWrapper<'a> {
                     incoming_reconstruction_states,
                     outgoing_reconstruction_states,
                     buffers,
+                    // shortcuts outside of the customized graph may be waiting, too
+                    &mut |id| {
+                        if (id.edge_id() as usize) < id.get_with(&customized_graph.incoming, &customized_graph.outgoing, |g_dir, _| g_dir.head.len()) {
+                            (customized_graph.lower_node(id), customized_graph.upper_node(id))
+                        } else {
+                            lower_and_upper_node(id)
+                        }
+                    },
                 );
             } else {
                 self.cache_iterative_iteration(
-- 
2.43.0


From 9def2779f804913b92d6ba075b7fd2a919440033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:09 +0000
Subject: [PATCH 30/50] fix: CATCHUp missed the fastest path when it passes a
 node twice because waiting takes no longer

---
 engine/src/algo/catchup.rs | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 56cdc1b..1c750f3 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -319,6 +319,8 @@ impl<'a> Server<'a> {
             dbg_each!(self.lower_bounds_to_target[self.to as usize])
         );
         let lower_bounds_to_target = &mut self.lower_bounds_to_target;
+        // edges added to the search space while settling the current node
+        let mut newly_relevant: Vec<EdgeId> = Vec::new();
 
         self.closest_node_priority_queue.push(State {
             key: departure_time + tentative_distance.0,
@@ -367,7 +369,12 @@ impl<'a> Server<'a> {
                                 lower_bound_target,
                                 self.customized_graph,
                                 lower_bounds_to_target,
-                                &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                &mut |edge_id| {
+                                    if !relevant_upward.get(edge_id as usize) {
+                                        relevant_upward.set(edge_id as usize);
+                                        newly_relevant.push(edge_id);
+                                    }
+                                },
                             )
                             .unwrap()
                     } else {
@@ -442,7 +449,12 @@ impl<'a> Server<'a> {
                                     lower_bound_target,
                                     self.customized_graph,
                                     lower_bounds_to_target,
-                                    &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                    &mut |edge_id| {
+                                    if !relevant_upward.get(edge_id as usize) {
+                                        relevant_upward.set(edge_id as usize);
+                                        newly_relevant.push(edge_id);
+                                    }
+                                },
                                 )
                                 .unwrap()
                         } else {
@@ -485,6 +497,31 @@ impl<'a> Server<'a> {
                     }
                 }
             }
+
+            // The tails of edges which were just added to the search space may have been settled already.
+            // This happens when the fastest path visits a node twice because waiting takes no longer.
+            // Then we need to settle them again, otherwise the new edges would never be relaxed.
+            for edge_id in newly_relevant.drain(..) {
+                let tail = self.customized_graph.outgoing.tail()[edge_id as usize];
+                if self.distances[tail as usize] < Timestamp::NEVER {
+                    let lower = if cfg!(feature = "tdcch-query-astar") {
+                        lower_bounds_to_target[tail as usize]
+                    } else {
+                        FlWeight::ZERO
+                    };
+                    let state = State {
+                        key: self.distances[tail as usize] + lower,
+                        node: tail,
+                    };
+                    if let Some(label) = self.closest_node_priority_queue.get(state.as_index()) {
+                        if state < *label {
+                            self.closest_node_priority_queue.decrease_key(state);
+                        }
+                    } else {
+                        self.closest_node_priority_queue.push(state);
+                    }
+                }
+            }
         }
 
         if cfg!(feature = "detailed-stats") {
-- 
2.43.0


From 8a1b1bbd61bc7e2f173e588db6a3e91061b55462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 31/50] fix: CATCHUp queries asserted a relation of bounds
 which only holds after all meeting nodes were found

---
 engine/src/algo/catchup.rs                  | 6 ++++--
 engine/src/algo/catchup/partial_profiles.rs | 6 ++++--
 engine/src/algo/catchup/profiles.rs         | 6 ++++--
 engine/src/algo/catchup/profiles_naive.rs   | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 1c750f3..6f3f4e8 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -172,7 +172,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -206,7 +205,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -224,6 +222,10 @@ impl<'a> Server<'a> {
         #[cfg(feature = "tdcch-query-detailed-timing")]
         let elimination_tree_time = timer.get_passed();
 
+        // Shortcuts only required as part of others may have an upper bound (of any path) below their lower bound (of their paths).
+        // So this holds only for the bounds over all meeting nodes and not yet while running the elimination tree query.
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         // elimination tree query done, now we want to retrieve the corridor
 
         let tentative_upper_bound = tentative_distance.1;
diff --git a/engine/src/algo/catchup/partial_profiles.rs b/engine/src/algo/catchup/partial_profiles.rs
index c702e25..69563c5 100644
--- a/engine/src/algo/catchup/partial_profiles.rs
+++ b/engine/src/algo/catchup/partial_profiles.rs
@@ -176,7 +176,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -210,7 +209,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -233,6 +231,10 @@ impl<'a> Server<'a> {
             return (PartialShortcut::new_finished(start, end, &[], tentative_distance), Vec::new(), Vec::new());
         }
 
+        // Shortcuts only required as part of others may have an upper bound (of any path) below their lower bound (of their paths).
+        // So this holds only for the bounds over all meeting nodes and not yet while running the elimination tree query.
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         // elimination tree query done, now we want to retrieve the corridor
 
         let tentative_upper_bound = tentative_distance.1;
diff --git a/engine/src/algo/catchup/profiles.rs b/engine/src/algo/catchup/profiles.rs
index 730eb39..35ade56 100644
--- a/engine/src/algo/catchup/profiles.rs
+++ b/engine/src/algo/catchup/profiles.rs
@@ -173,7 +173,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -207,7 +206,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -225,6 +223,10 @@ impl<'a> Server<'a> {
         report!("elimination_tree_time", timer.get_passed().as_secs_f64() * 1000.0);
         timer.restart();
 
+        // Shortcuts only required as part of others may have an upper bound (of any path) below their lower bound (of their paths).
+        // So this holds only for the bounds over all meeting nodes and not yet while running the elimination tree query.
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         // elimination tree query done, now we want to retrieve the corridor
 
         let tentative_upper_bound = tentative_distance.1;
diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index d489508..1a50231 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -178,7 +178,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -212,7 +211,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -230,6 +228,10 @@ impl<'a> Server<'a> {
         #[cfg(feature = "tdcch-query-detailed-timing")]
         let elimination_tree_time = timer.get_passed();
 
+        // Shortcuts only required as part of others may have an upper bound (of any path) below their lower bound (of their paths).
+        // So this holds only for the bounds over all meeting nodes and not yet while running the elimination tree query.
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         // elimination tree query done, now we want to retrieve the corridor
 
         let tentative_upper_bound = tentative_distance.1;
-- 
2.43.0


From b5e87e6f3209d252186d9ba68a775c6a11e5987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 32/50] fix: switchpoints of profiles got the travel time of a
 later departure when a path stays the same

---
 .../datastr/graph/floating_time_dependent/shortcut_source.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
index 2a2b062..27da1a9 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
@@ -554,8 +554,8 @@ impl Sources for [(Timestamp, ShortcutSourceData)] {
                 ShortcutSource::from(c.cur().1).get_switchpoints(max(start, c.cur().0), min(end, c.next().0), shortcut_graph);
 
             if switchpoints.last().unwrap().1 == cur_switchpoints.first().unwrap().1 {
-                cur_switchpoints.first_mut().unwrap().0 = switchpoints.last().unwrap().0;
-                switchpoints.pop();
+                // same path as before: keep the first switchpoint with its travel time
+                cur_switchpoints.remove(0);
             }
             switchpoints.append(&mut cur_switchpoints);
             last_weight = end_weight;
-- 
2.43.0


From 3e394570dffbdf1f7a9a092097acd49f77d0f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 33/50] fix: reconstruction of profiles asked for functions in
 empty ranges when leaving later makes no difference

---
 .../datastr/graph/floating_time_dependent/shortcut_graph.rs    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs
index 73e32c3..8168c94 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs
@@ -1111,7 +1111,8 @@ impl<'a> ReconstructionGraph<'a> {
     }
 
     pub fn cache_recursive(&mut self, shortcut_id: ShortcutId, mut start: Timestamp, mut end: Timestamp, buffers: &mut MergeBuffers) {
-        if self.as_reconstructed().partial_ttf(shortcut_id, start, end).is_some() || self.as_reconstructed().periodic_ttf(shortcut_id).is_some() {
+        // check the complete function first, the range is empty if leaving later at the lower node does not make a difference
+        if self.as_reconstructed().periodic_ttf(shortcut_id).is_some() || self.as_reconstructed().partial_ttf(shortcut_id, start, end).is_some() {
             return;
         }
 
-- 
2.43.0


From 59cecf0b87dedb6ffcc55e23dd035401b0b15816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:21 +0000
Subject: [PATCH 34/50] fix: bounds of merged approximated functions were not
 periodic

---
 .../graph/floating_time_dependent/travel_time_function.rs    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
index 642ca0c..0adac20 100644
--- a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
@@ -537,7 +537,6 @@ impl<'a> PeriodicATTF<'a> {
             result.extend(iter);
         }
         // `result` now is finalized
-
         debug_assert!(result.first().unwrap().0 == Timestamp::ZERO);
         for better in result.windows(2) {
             debug_assert!(
@@ -611,6 +610,10 @@ impl<'a> PeriodicATTF<'a> {
             }
         }
 
+        // the first and the last segment may use the bounds of different functions
+        PeriodicPiecewiseLinearFunction::make_lower_bound_periodic(&mut buffers.exact_result_lower);
+        PeriodicPiecewiseLinearFunction::make_upper_bound_periodic(&mut buffers.exact_result_upper);
+
         let ret = (
             ATTFContainer::Approx(Box::from(&buffers.exact_result_lower[..]), Box::from(&buffers.exact_result_upper[..])),
             result,
-- 
2.43.0


From 65bc68a8360656d7385dbfd8ec0b6a0d55dcd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:13 +0000
Subject: [PATCH 35/50] fix: profiles took functions for constant because
 another path gave them tight bounds

---
 .../datastr/graph/floating_time_dependent/partial_shortcut.rs  | 3 ++-
 engine/src/datastr/graph/floating_time_dependent/shortcut.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/partial_shortcut.rs b/engine/src/datastr/graph/floating_time_dependent/partial_shortcut.rs
index 3a92123..a5436f0 100644
--- a/engine/src/datastr/graph/floating_time_dependent/partial_shortcut.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/partial_shortcut.rs
@@ -64,7 +64,8 @@ impl PartialShortcut {
             end,
             lower_bound: bounds.0,
             upper_bound: bounds.1,
-            constant: bounds.0.fuzzy_eq(bounds.1),
+            // equal bounds do not suffice: they may stem from other, better paths than the ones in `sources`
+            constant: false,
             required: true,
             sources,
         }
diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut.rs
index b035f6f..d885547 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut.rs
@@ -71,7 +71,8 @@ impl Shortcut {
             cache: None,
             lower_bound: bounds.0,
             upper_bound: bounds.1,
-            constant: bounds.0.fuzzy_eq(bounds.1),
+            // equal bounds do not suffice: they may stem from other, better paths than the ones in `sources`
+            constant: false,
             required: true,
             sources,
         }
-- 
2.43.0


From 321a4dcc9777c98bb66d8dc1c93344aaf1de0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:33 +0000
Subject: [PATCH 36/50] fix: averaged potentials were limited on each side and
 so did not add up to a constant

---
 engine/src/algo/a_star.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index 9f2cc2a..792880b 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -291,13 +291,17 @@ impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP>
     }
 
     pub fn potential(&mut self, node: NodeId) -> Option<i32> {
-        self.forward_potential
-            .potential(node)
-            .and_then(|dist_t| self.backward_potential.potential(node).map(|dist_s| (dist_t as i32 - dist_s as i32) / 2))
+        // limited to where both `p + fw_add` and `bw_add - p` are non negative
+        // their sum needs to be the same for all nodes, so it is not enough to limit each of them
+        let (lower, upper) = (-self.fw_add, self.bw_add);
+        self.forward_potential.potential(node).and_then(|dist_t| {
+            self.backward_potential
+                .potential(node)
+                .map(|dist_s| ((dist_t as i32 - dist_s as i32) / 2).clamp(lower, upper))
+        })
     }
 }
 
-use std::cmp::max;
 impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePotential<PF, PB, IP> {
     fn init(&mut self, source: NodeId, target: NodeId) {
         self.forward_potential.init(target);
@@ -314,10 +318,10 @@ impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePot
         }
     }
     fn forward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(p + self.fw_add, 0) as Weight)
+        self.potential(node).map(|p| (p + self.fw_add) as Weight)
     }
     fn backward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(self.bw_add - p, 0) as Weight)
+        self.potential(node).map(|p| (self.bw_add - p) as Weight)
     }
     fn forward_potential_raw(&mut self, node: NodeId) -> Option<Weight> {
         self.forward_potential.potential(node)
-- 
2.43.0


From 3f55179a47480b05c5e8432b4f0813bf882e0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 37/50] fix: selecting avoid landmarks did not terminate when
 the root has a loop

---
 engine/src/algo/alt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/alt.rs b/engine/src/algo/alt.rs
index b27f7f5..d842083 100644
--- a/engine/src/algo/alt.rs
+++ b/engine/src/algo/alt.rs
@@ -120,7 +120,8 @@ impl ALTPotData {
             while let Some(next) = graph
                 .link_iter(v)
                 .map(|l| l.head())
-                .filter(|&l| dists.predecessor(l) == v)
+                // the root is its own predecessor
+                .filter(|&l| l != v && dists.predecessor(l) == v)
                 .max_by_key(|&l| weights[l as usize])
             {
                 v = next;
-- 
2.43.0


From 44d2802576b3803d88302da6e8fd094015c97c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 38/50] fix: stop criterion with averaged potentials overflowed
 for unreachable targets

---
 engine/src/algo/a_star.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index 792880b..537b166 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -313,7 +313,7 @@ impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePot
     }
     fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
         match (fw_min_queue, bw_min_queue) {
-            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist + self.mu_add,
+            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue.saturating_add(bw_min_queue) >= stop_dist + self.mu_add,
             _ => true,
         }
     }
-- 
2.43.0


From efcf216aa05f12bcfa2bf9a11f05b52cc3f2ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 39/50] verification hook: record the paths of traffic aware
 queries

---
 engine/src/algo/traffic_aware.rs                |  2 ++
 engine/src/algo/traffic_aware/td_live.rs        |  2 ++
 engine/src/algo/traffic_aware/time_dependent.rs |  2 ++
 engine/src/verif_atomic.rs                      | 14 ++++++++++++++
 4 files changed, 20 insertions(+)

diff --git a/engine/src/algo/traffic_aware.rs b/engine/src/algo/traffic_aware.rs
index 35d743e..3975003 100644
--- a/engine/src/algo/traffic_aware.rs
+++ b/engine/src/algo/traffic_aware.rs
@@ -482,6 +482,8 @@ impl<'a> TrafficAwareServer<'a> {
             }
 
             path.reverse();
+            #[cfg(verif_hooks)]
+            crate::verif_atomic::record_path(&path);
             report!("num_nodes_on_path", path.len());
 
             let (violating, time) = measure(|| self.ubs_checker.find_ubs_violating_subpaths(&path, epsilon));
diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index b5b0882..54b860e 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -116,6 +116,8 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
             }
 
             path.reverse();
+            #[cfg(verif_hooks)]
+            crate::verif_atomic::record_path(&path);
             report!("num_nodes_on_path", path.len());
 
             let (violating, time) = measure(|| self.ubs_checker.find_ubs_violating_subpaths(&path, epsilon));
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index a640a3a..69e5359 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -116,6 +116,8 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
             }
 
             path.reverse();
+            #[cfg(verif_hooks)]
+            crate::verif_atomic::record_path(&path);
             report!("num_nodes_on_path", path.len());
 
             let (violating, time) = measure(|| self.ubs_checker.find_ubs_violating_subpaths(&path, epsilon));
diff --git a/engine/src/verif_atomic.rs b/engine/src/verif_atomic.rs
index bf0327b..530f16a 100644
--- a/engine/src/verif_atomic.rs
+++ b/engine/src/verif_atomic.rs
@@ -159,3 +159,17 @@ macro_rules! instrumented {
 
 instrumented!(AtomicU32, u32, U32);
 instrumented!(AtomicU64, u64, U64);
+
+thread_local! {
+    static PATHS: std::cell::RefCell<Vec<Vec<u32>>> = std::cell::RefCell::new(Vec::new());
+}
+
+/// Remember a path which a query of the current thread considered.
+pub fn record_path(path: &[u32]) {
+    PATHS.with(|p| p.borrow_mut().push(path.to_vec()));
+}
+
+/// The paths recorded since the last call on the current thread.
+pub fn take_paths() -> Vec<Vec<u32>> {
+    PATHS.with(|p| std::mem::take(&mut *p.borrow_mut()))
+}
-- 
2.43.0


From cc596ac934dc467cc85269735049b08742117c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 40/50] fix: labels of sources with more than 128 forbidden
 paths

---
 engine/src/algo/traffic_aware.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/traffic_aware.rs b/engine/src/algo/traffic_aware.rs
index 3975003..e7800ff 100644
--- a/engine/src/algo/traffic_aware.rs
+++ b/engine/src/algo/traffic_aware.rs
@@ -47,7 +47,8 @@ impl ActiveForbittenPaths {
 
     fn get(&self, idx: usize) -> bool {
         match self {
-            Self::One(active) => active & (1 << idx) != 0,
+            // labels at the source are created before it is known how many paths run through it
+            Self::One(active) => idx < 128 && active & (1 << idx) != 0,
             Self::More(active) => (active[idx / 128] & (1 << (idx % 128))) != 0,
         }
     }
-- 
2.43.0


From 75a413b070202bd0cbf688df9d525150ed14b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 41/50] fix: detour blocking does not skip low degree nodes

---
 engine/src/algo/traffic_aware.rs                | 6 ++++--
 engine/src/algo/traffic_aware/td_live.rs        | 6 ++++--
 engine/src/algo/traffic_aware/time_dependent.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/traffic_aware.rs b/engine/src/algo/traffic_aware.rs
index e7800ff..55e1bb8 100644
--- a/engine/src/algo/traffic_aware.rs
+++ b/engine/src/algo/traffic_aware.rs
@@ -524,7 +524,7 @@ use crate::algo::ch_potentials::query::Server as TopoDijkServer;
 
 pub struct HeuristicTrafficAwareServer<'a> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
-    shortest_path: TopoDijkServer<OwnedGraph, BlockedDetoursDijkstra<DefaultOpsByEdgeId>, RecyclingPotential<BorrowedCCHPot<'a>>, true, true, true>,
+    shortest_path: TopoDijkServer<OwnedGraph, BlockedDetoursDijkstra<DefaultOpsByEdgeId>, RecyclingPotential<BorrowedCCHPot<'a>>, true, false, false>,
 }
 
 impl<'a> HeuristicTrafficAwareServer<'a> {
@@ -533,7 +533,9 @@ impl<'a> HeuristicTrafficAwareServer<'a> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TopoDijkServer::new(
+            // No skipping of low degree nodes: blocking detours inspects the parents of a node
+            // and these must not change anymore once its links are relaxed.
+            shortest_path: TopoDijkServer::new_custom(
                 &live_graph,
                 RecyclingPotential::new(live_cch_pot.forward_potential()),
                 BlockedDetoursDijkstra::new(n, DefaultOpsByEdgeId()),
diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index 54b860e..2ca2e95 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -156,7 +156,7 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
 pub struct HeuristicTDTrafficAwareServer<'a, P> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
     shortest_path:
-        TDTopoDijkServer<PessimisticLiveTDGraph, BlockedDetoursDijkstra<PessimisticLiveTDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, true, true>,
+        TDTopoDijkServer<PessimisticLiveTDGraph, BlockedDetoursDijkstra<PessimisticLiveTDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, false, false>,
 }
 
 impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
@@ -165,7 +165,9 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TDTopoDijkServer::new(
+            // No skipping of low degree nodes: blocking detours inspects the parents of a node
+            // and these must not change anymore once its links are relaxed.
+            shortest_path: TDTopoDijkServer::new_custom(
                 live_graph,
                 td_astar::TDRecyclingPotential::new(live_cch_pot),
                 BlockedDetoursDijkstra::new(n, PessimisticLiveTDDijkstraOps()),
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index 69e5359..6837b06 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -155,7 +155,7 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
 
 pub struct HeuristicTDTrafficAwareServer<'a, P> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
-    shortest_path: TDTopoDijkServer<TDGraph, BlockedDetoursDijkstra<TDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, true, true>,
+    shortest_path: TDTopoDijkServer<TDGraph, BlockedDetoursDijkstra<TDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, false, false>,
 }
 
 impl<'a> HeuristicTDTrafficAwareServer<'a, BorrowedCCHPot<'a>> {}
@@ -166,7 +166,9 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TDTopoDijkServer::new(
+            // No skipping of low degree nodes: blocking detours inspects the parents of a node
+            // and these must not change anymore once its links are relaxed.
+            shortest_path: TDTopoDijkServer::new_custom(
                 live_graph,
                 td_astar::TDRecyclingPotential::new(live_cch_pot),
                 BlockedDetoursDijkstra::new(n, TDDijkstraOps()),
-- 
2.43.0


From 264425cdee9eadb40ed5022c5a9cec7e72256ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 42/50] fix: smooth upper bounds only from edges on smooth
 shortest paths

---
 engine/src/algo/traffic_aware/td_traffic_pots.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index f44ef50..525728b 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -1137,7 +1137,8 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
                         {
                             if Self::keep(&stat.0) || smooth_req {
                                 local_fw_head[fw_edge_count] = *head;
-                                local_fw_static[fw_edge_count] = *stat;
+                                // the upper bound belongs to a path which is not shortest by the smooth metric if the edge is not required
+                                local_fw_static[fw_edge_count] = (stat.0, if smooth_req { stat.1 } else { INFINITY });
                                 fw_edge_count += 1;
                             }
                         }
@@ -1148,7 +1149,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
                         {
                             if Self::keep(&stat.0) || smooth_req {
                                 local_bw_head[bw_edge_count] = *head;
-                                local_bw_static[bw_edge_count] = *stat;
+                                local_bw_static[bw_edge_count] = (stat.0, if smooth_req { stat.1 } else { INFINITY });
                                 bw_edge_count += 1;
                             }
                         }
-- 
2.43.0


From b976edcec18748b1b374f1bdaa6baccd3744c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 43/50] fix: return the alternatives of
 Penalty::alternatives_iterative in the node ids of the input graph

---
 engine/src/algo/ch_potentials/penalty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index b7d49ca..9c1c801 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -418,7 +418,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
 
                 if nonshared_length > path_orig_len / 5 {
                     let _alt_ctxt = alternatives_ctxt.push_collection_item();
-                    alternatives.push(path.clone());
+                    alternatives.push(path.iter().map(|&node| self.virtual_topocore.order.node(node)).collect());
                     alternative_graph_dijkstra.graph_mut().add_edges(&path_edges);
                     report!("sharing_percent", (path_orig_len - nonshared_length) * 100 / base_dist);
                     report!("iteration", i);
-- 
2.43.0


From 35c4af5e69b1bcb9ca8f451e8f813cdc4046ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 44/50] fix: Penalty::alternatives_iterative must not return
 routes longer than the allowed stretch

---
 engine/src/algo/ch_potentials/penalty.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index 9c1c801..bb93ea6 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -410,6 +410,12 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                     .map(|&EdgeIdT(e)| alternative_graph_dijkstra.graph().graph.graph.weight()[e as usize])
                     .sum();
 
+                if path_orig_len > max_orig_dist || penalty_dist > max_penalized_dist {
+                    // dbg!(path_orig_len > max_orig_dist);
+                    // dbg!(penalty_dist > max_penalized_dist);
+                    break;
+                }
+
                 let nonshared_length: Weight = path_edges
                     .iter()
                     .filter(|&&EdgeIdT(edge)| !alternative_graph_dijkstra.graph().contained_edges.get(edge as usize))
@@ -428,12 +434,6 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         break;
                     }
                 }
-
-                if path_orig_len > max_orig_dist || penalty_dist > max_penalized_dist {
-                    // dbg!(path_orig_len > max_orig_dist);
-                    // dbg!(penalty_dist > max_penalized_dist);
-                    break;
-                }
             }
 
             drop(alternatives_ctxt);
-- 
2.43.0


From adc0c689c6485d4c7f01d3d068d789a1d17d6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 45/50] fix: debug assertion in local_to_here_link_id failed
 for every link against the reference direction

---
 conversion/src/here/link_id_mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/here/link_id_mapper.rs b/conversion/src/here/link_id_mapper.rs
index a2a1c4b..55dfbab 100644
--- a/conversion/src/here/link_id_mapper.rs
+++ b/conversion/src/here/link_id_mapper.rs
@@ -49,7 +49,7 @@ impl LinkIdMapper {
         let direction = if self.here_rank_to_link_id[rank].0.value() == Some(link_id) {
             LinkDirection::FromRef
         } else {
-            debug_assert_eq!(self.here_rank_to_link_id[rank].0.value(), Some(link_id));
+            debug_assert_eq!(self.here_rank_to_link_id[rank].1.value(), Some(link_id));
             LinkDirection::ToRef
         };
         (here_link_id, direction)
-- 
2.43.0


From 84764a2d0604d4b775a3ee7a0722505ae2991ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 46/50] verification hook: threads can be paused after
 customization

---
 .../customization.rs                          |  2 ++
 engine/src/verif_atomic.rs                    | 20 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec81a2d..06cbc88 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -22,6 +22,8 @@ pub fn customize<'c, Graph>(cch: &'c CCH, metric: &Graph) -> CustomizedBasic<'c,
 where
     Graph: LinkIterGraph + EdgeRandomAccessGraph<Link> + Sync,
 {
+    #[cfg(verif_hooks)]
+    let _pause = crate::verif_atomic::PauseAtEnd;
     let m = cch.num_arcs();
     // buffers for the customized weights
     let mut upward_weights = vec![INFINITY; m];
diff --git a/engine/src/verif_atomic.rs b/engine/src/verif_atomic.rs
index 530f16a..5cb1c3b 100644
--- a/engine/src/verif_atomic.rs
+++ b/engine/src/verif_atomic.rs
@@ -173,3 +173,23 @@ pub fn record_path(path: &[u32]) {
 pub fn take_paths() -> Vec<Vec<u32>> {
     PATHS.with(|p| std::mem::take(&mut *p.borrow_mut()))
 }
+
+thread_local! {
+    static PAUSE: Cell<Option<fn()>> = Cell::new(None);
+}
+
+/// What the current thread does when a customization is finished.
+pub fn set_pause(f: fn()) {
+    PAUSE.with(|p| p.set(Some(f)));
+}
+
+/// Pauses the current thread when dropped, if asked to.
+pub struct PauseAtEnd;
+
+impl Drop for PauseAtEnd {
+    fn drop(&mut self) {
+        if let Some(f) = PAUSE.with(|p| p.get()) {
+            f()
+        }
+    }
+}
-- 
2.43.0


From cac96e568fc157de1b4bfe2f2f8af63cff6c72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 47/50] fix: here queries of the server must use the customized
 travel times

---
 server/src/main.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 49534ba..ca43f8b 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -210,7 +210,8 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        let server = Arc::new(Mutex::new(Server::new(cch_customize(&cch, &graph))));
+        // the server with the travel times it was customized for
+        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), travel_time.clone())));
 
         let coords = |node: NodeId| -> (f32, f32) { (lat[node as usize], lng[node as usize]) };
         let closest_node = |(p_lat, p_lng): (f32, f32)| -> NodeId {
@@ -238,7 +239,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let mut server = server.lock().unwrap();
+                        let (server, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -262,20 +263,18 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let from_link_direction = if from_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
                         let from_link_local_id = id_mapper.here_to_local_link_id(from_link_id, from_link_direction).expect("non existing link");
-                        let from_link = graph.link(from_link_local_id);
-                        let from = from_link.node;
+                        let from = graph.link(from_link_local_id).node;
 
                         let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
                         let to_link_local_id = id_mapper.here_to_local_link_id(to_link_id, to_link_direction).expect("non existing link");
-                        let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let mut server = server.lock().unwrap();
+                        let (server, travel_time) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance()
-                                    + (from_link_fraction * from_link.weight as f32) as u32
-                                    + (to_link_fraction * to_link.weight as f32) as u32;
+                                    + (from_link_fraction * travel_time[from_link_local_id as usize] as f32) as u32
+                                    + (to_link_fraction * travel_time[to_link_local_id as usize] as f32) as u32;
 
                                 let path = result.node_path();
                                 let path_iter = path.iter();
@@ -289,7 +288,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                                             .map(|(first_node, second_node)| {
                                                 graph
                                                     .edge_indices(*first_node, *second_node)
-                                                    .min_by_key(|&EdgeIdT(edge)| graph.weight()[edge as usize])
+                                                    .min_by_key(|&EdgeIdT(edge)| travel_time[edge as usize])
                                                     .unwrap()
                                             })
                                             .map(|EdgeIdT(link_id)| {
@@ -325,8 +324,10 @@ fn main() -> Result<(), Box<dyn Error>> {
                                     travel_time[link_idx as usize] = weight.0
                                 }
                             }
-                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            server.lock().unwrap().update(customized);
+                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], &travel_time[..]));
+                            let (server, travel_time_in_use) = &mut *server.lock().unwrap();
+                            server.update(customized);
+                            *travel_time_in_use = travel_time;
                         });
                     }
                 }
-- 
2.43.0


From c1dadeafc750f295f346a3f28f29bf4509d08e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 48/50] fix: customizations of the server carry over and are
 published in order

---
 server/src/main.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ca43f8b..7efe5fc 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -213,6 +213,10 @@ fn main() -> Result<(), Box<dyn Error>> {
         // the server with the travel times it was customized for
         let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), travel_time.clone())));
 
+        // travel times with all updates requested so far and the right to customize and publish them
+        let latest_travel_time = Mutex::new(travel_time.clone());
+        let customizing = Mutex::new(());
+
         let coords = |node: NodeId| -> (f32, f32) { (lat[node as usize], lng[node as usize]) };
         let closest_node = |(p_lat, p_lng): (f32, f32)| -> NodeId {
             tree.nearest_search(&NodeCoord {
@@ -306,24 +310,28 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result.send(result).unwrap();
                     }
                     Request::Customize(updates) => {
+                        {
+                            let mut latest_travel_time = latest_travel_time.lock().unwrap();
+                            for (here_link_id, is_from_ref, weight) in updates.into_iter() {
+                                let direction = if is_from_ref { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                                if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, direction) {
+                                    latest_travel_time[link_idx as usize] = weight.0
+                                }
+                            }
+                        }
+
                         let server = server.clone();
-                        let mut travel_time = travel_time.clone();
-                        let id_mapper = &id_mapper;
+                        let latest_travel_time = &latest_travel_time;
+                        let customizing = &customizing;
                         let cch = &cch;
                         let first_out = &first_out;
                         let head = &head;
 
                         // asynchronous customization
                         scope.spawn(move |_| {
-                            for (here_link_id, is_from_ref, weight) in updates.into_iter() {
-                                if is_from_ref {
-                                    if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::FromRef) {
-                                        travel_time[link_idx as usize] = weight.0
-                                    }
-                                } else if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::ToRef) {
-                                    travel_time[link_idx as usize] = weight.0
-                                }
-                            }
+                            // one at a time, so no result is replaced by an older one
+                            let _guard = customizing.lock().unwrap();
+                            let travel_time = latest_travel_time.lock().unwrap().clone();
                             let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], &travel_time[..]));
                             let (server, travel_time_in_use) = &mut *server.lock().unwrap();
                             server.update(customized);
-- 
2.43.0


From 0b8e443b314a7e8213a0d510dc137f725d63ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:36 +0000
Subject: [PATCH 49/50] fix: here queries for links which do not exist must
 only fail themselves

---
 server/src/main.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 7efe5fc..5bf36af 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -16,7 +16,7 @@ use std::{
     thread,
 };
 
-use rocket::{request::Form, response::NamedFile, State};
+use rocket::{http::Status, request::Form, response::NamedFile, State};
 use rocket_contrib::json::Json;
 
 use kdtree::kdtree::{Kdtree, KdtreePointTrait};
@@ -113,7 +113,7 @@ fn query(query_params: Form<GeoQuery>, state: State<Mutex<Sender<Request>>>) ->
 }
 
 #[get("/here_query?<query_params..>", format = "application/json")]
-fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>>) -> Json<Option<HereResponse>> {
+fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>>) -> Result<Json<Option<HereResponse>>, Status> {
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
@@ -121,11 +121,12 @@ fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>
         let (tx_result, rx_result) = mpsc::channel::<Option<HereResponse>>();
 
         tx_query.send(Request::Here((*query_params, tx_result))).unwrap();
-        rx_result.recv().expect("routing engine crashed or hung up")
+        // there is no answer for links which do not exist
+        rx_result.recv().map_err(|_| Status::InternalServerError)
     });
 
     println!();
-    Json(result)
+    result.map(Json)
 }
 
 #[derive(Debug)]
@@ -266,11 +267,19 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result,
                     )) => {
                         let from_link_direction = if from_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let from_link_local_id = id_mapper.here_to_local_link_id(from_link_id, from_link_direction).expect("non existing link");
+                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                        let link_local_ids = (
+                            id_mapper.here_to_local_link_id(from_link_id, from_link_direction),
+                            id_mapper.here_to_local_link_id(to_link_id, to_link_direction),
+                        );
+                        let (from_link_local_id, to_link_local_id) = if let (Some(from), Some(to)) = link_local_ids {
+                            (from, to)
+                        } else {
+                            // the request fails when its channel is closed
+                            continue;
+                        };
                         let from = graph.link(from_link_local_id).node;
 
-                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let to_link_local_id = id_mapper.here_to_local_link_id(to_link_id, to_link_direction).expect("non existing link");
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
                         let (server, travel_time) = &mut *server.lock().unwrap();
-- 
2.43.0


From 168ddc37c8dddd20cf9b7b554bef426a58d14391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 50/50] fix: addressable queue forgets drained elements also
 when the drain is dropped early

---
 engine/src/datastr/index_heap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 119de46..e503b16 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -162,7 +162,10 @@ impl<T: Ord + Indexing> IndexdMinHeap<T> {
     }
 
     pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
-        self.data.drain(..).inspect(|item| self.positions[item.as_index()] = INVALID_POSITION)
+        for element in &self.data {
+            self.positions[element.as_index()] = INVALID_POSITION;
+        }
+        self.data.drain(..)
     }
 
     fn move_up_in_tree(&mut self, mut position: usize) {
-- 
2.43.0

