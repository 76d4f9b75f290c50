From d75cfa9762be2866d390c3c86dca5810de219725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 1/7] fix: depth-first traversal dropped pending edges
 unrelated to the closed one

When a newly reached node closed a cycle, the stack was purged of every
pending edge that left the earlier node or led to the new one, rather than
of just the one edge between them, so nodes and edges could be lost.
---
 src/traversal/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traversal/depth_first.rs b/src/traversal/depth_first.rs
index 5976d0f..68bd9cc 100644
--- a/src/traversal/depth_first.rs
+++ b/src/traversal/depth_first.rs
@@ -99,7 +99,7 @@ impl<'a, G> Iterator for DepthFirst<'a, G>
 
                         if self.nodes.contains(&neighbor) {
                             self.stack.retain(
-                                |edge| edge.0 != neighbor && edge.1 != node
+                                |edge| edge.0 != neighbor || edge.1 != node
                             );
                         }
 
-- 
2.43.0


From 4af3e7771aa71a0f6c0d182f88564191a44e5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 2/7] fix: greedy matching marked nodes as taken without
 matching them

An edge whose second node was already matched still marked its first node
as taken, so the matching could miss edges between two unmatched nodes. An
edge from a node to itself can't be matched at all.
---
 src/matching/greedy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matching/greedy.rs b/src/matching/greedy.rs
index 42e147f..a6af652 100644
--- a/src/matching/greedy.rs
+++ b/src/matching/greedy.rs
@@ -50,7 +50,9 @@ pub fn greedy<G: Graph>(graph: &G) -> Pairing {
         );
 
         for Step { sid, tid, cut: _ } in traversal {
-            if nodes.insert(sid) && nodes.insert(tid) {
+            if sid != tid && !nodes.contains(&sid) && !nodes.contains(&tid) {
+                nodes.insert(sid);
+                nodes.insert(tid);
                 // edges.push((sid, tid));
                 pairing.pair(sid, tid);
             }
-- 
2.43.0


From e52bf6ba11039b7056e73a72b0a7be350c73cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 3/7] fix: count an edge from a node to itself once however it
 was added

Added through add_edge, such an edge listed its node as a neighbor twice,
which made components and greedy panic with a duplicate edge. Given in an
adjacency list it was missing from the graph's edges and size.
---
 src/graph/default_graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index 80be412..fd90a8c 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -74,7 +74,11 @@ impl DefaultGraph {
         }
         
         self.adjacency[source_index].push(tid);
-        self.adjacency[target_index].push(sid);
+
+        if sid != tid {
+            self.adjacency[target_index].push(sid);
+        }
+
         self.edges.push((sid, tid));
 
         Ok(())
@@ -155,7 +159,7 @@ impl TryFrom<Vec<Vec<usize>>> for DefaultGraph {
                     return Err(Error::MissingEdge(tid, sid));
                 }
 
-                if sid < tid {
+                if sid <= tid {
                     result.edges.push((sid, tid));
                 }
             }
-- 
2.43.0


From 73349e346beeea254f3b2f7d504012ec41d87160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 4/7] fix: overflow in maximum matching of a graph with the
 greatest node id

The id of a contracted blossom was one more than the greatest node id.
---
 src/matching/maximum_matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 1ba8234..ccbf88f 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -124,8 +124,8 @@ fn even_path<G: Graph>(
 fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
 ) -> Option<Vec<usize>> {
-    let max_id = graph.nodes().max().expect("no max id");
-    let blossom =  Blossom::new(max_id + 1, left, right);
+    let id = (0..).find(|&id| !graph.has_node(id)).expect("no unused id");
+    let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
-- 
2.43.0


From 1c209a3656ce4f1a7cc825f80a628019ac05d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 5/7] fix: maximum matching lifted paths through a blossom that
 can't be augmented

A path crossing a blossom was lifted along whichever of its nodes happened
to be adjacent, which could leave a path of odd length (a panic), or one
that unmatched other nodes.
---
 src/matching/blossom.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matching/blossom.rs b/src/matching/blossom.rs
index cf2d770..fdfffa6 100644
--- a/src/matching/blossom.rs
+++ b/src/matching/blossom.rs
@@ -92,7 +92,14 @@ impl Blossom {
         let left = path[0..index].to_vec();
         let right = path[(index + 1)..].to_vec();
 
-        if left.is_empty() && right.is_empty() {
+        // Augmentation pairs every other node of the path with the next, so
+        // the blossom's partner is to the left exactly if left is odd. The
+        // node adjacent to it leaves the others to be paired along the cycle.
+        if left.len() % 2 == 1 && right.len() % 2 == 0 {
+            [ self.lift_left_blossom(left, graph), right ].concat()
+        } else if left.len() % 2 == 0 && right.len() % 2 == 1 {
+            [ left, self.lift_blossom_right(right, graph) ].concat()
+        } else if left.is_empty() && right.is_empty() {
             self.path.to_vec()
         } else if !left.is_empty() && right.is_empty() {
             self.lift_left_blossom(left, graph)
-- 
2.43.0


From 256fc92e8b72486633820fbdca9ceaee25a4216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:55 +0000
Subject: [PATCH 6/7] fix: maximum_matching no longer recurses once per
 augmentation

Every augmentation added a stack frame, so that a graph with some 30000
disjoint edges overflowed the stack of a thread. The loop already repeats
the search.
---
 src/matching/maximum_matching.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index ccbf88f..291d7a1 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -39,7 +39,6 @@ pub fn maximum_matching<'a, G: Graph>(
 ) {
     while let Some(path) = augmenting_path(graph, pairing) {
         pairing.augment(path);
-        maximum_matching(graph, pairing);
     }
 }
 
-- 
2.43.0


From 34ff95fa436405985b84dc5a1a75cfdcf2dd042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 7/7] fix: nested blossoms no longer recurse

Every level of nesting took about 1 KiB of stack, so that a graph of 4800
nodes overflowed the stack of a thread. Contract one blossom after another
and lift the path back through them.
---
 src/matching/maximum_matching.rs | 68 ++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 291d7a1..1115370 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -1,4 +1,4 @@
-use crate::graph::{ Graph };
+use crate::graph::{ Graph, DefaultGraph };
 use super::pairing::Pairing;
 use super::forest::Forest;
 use super::marker::Marker;
@@ -42,9 +42,52 @@ pub fn maximum_matching<'a, G: Graph>(
     }
 }
 
+enum Found {
+    Path(Vec<usize>),
+    Blossom(Vec<usize>, Vec<usize>)
+}
+
+struct Contraction {
+    blossom: Blossom,
+    graph: DefaultGraph,
+    pairing: Pairing
+}
+
 fn augmenting_path<'a, G: Graph>(
     graph: &'a G, pairing: &'a mut Pairing
 ) -> Option<Vec<usize>> {
+    let mut contractions: Vec<Contraction> = Vec::new();
+    let mut found = search(graph, pairing)?;
+
+    // nested blossoms are contracted one after another, not recursively
+    let mut path = loop {
+        match found {
+            Found::Path(path) => break path,
+            Found::Blossom(left, right) => {
+                let contraction = match contractions.last() {
+                    Some(outer) => process_blossom(
+                        left, right, &outer.graph, &outer.pairing
+                    ),
+                    None => process_blossom(left, right, graph, pairing)
+                };
+
+                found = search(&contraction.graph, &contraction.pairing)?;
+                contractions.push(contraction);
+            }
+        }
+    };
+
+    while let Some(Contraction { blossom, .. }) = contractions.pop() {
+        path = match contractions.last() {
+            Some(outer) => blossom.lift(path, &outer.graph),
+            None => blossom.lift(path, graph)
+        };
+    }
+
+    Some(path)
+}
+
+fn search<G: Graph>(graph: &G, pairing: &Pairing) -> Option<Found> {
     let mut forest = Forest::new();
     let mut marker = Marker::new();
 
@@ -73,7 +116,7 @@ fn augmenting_path<'a, G: Graph>(
             match forest.path(w) {
                 Some(path_w) => {
                     if path_w.len() % 2 == 1 {
-                        return even_path(v, path_w, graph, &forest, pairing)
+                        return Some(even_path(v, path_w, &forest))
                     }
                 },
                 None => {
@@ -101,36 +144,29 @@ fn some_w<G: Graph>(v: usize, graph: &G, marker: &Marker) -> Option<usize> {
         .find(|&id| !marker.has_edge(v, id))
 }
 
-fn even_path<G: Graph>(
-    v: usize,
-    mut path_w: Vec<usize>,
-    graph: &G,
-    forest: &Forest,
-    pairing: &Pairing
-) -> Option<Vec<usize>> {
+fn even_path(v: usize, mut path_w: Vec<usize>, forest: &Forest) -> Found {
     let mut path_v = forest.path(v).expect("v not in forest");
 
     if path_v.last() == path_w.last() {
-        process_blossom(path_v, path_w, graph, pairing)
+        Found::Blossom(path_v, path_w)
     } else {
         path_v.reverse();
         path_v.append(&mut path_w);
 
-        Some(path_v)
+        Found::Path(path_v)
     }
 }
 
 fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
-) -> Option<Vec<usize>> {
+) -> Contraction {
     let id = (0..).find(|&id| !graph.has_node(id)).expect("no unused id");
     let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
-    let mut contracted_pairing = blossom.contract_pairing(&pairing);
+    let contracted_pairing = blossom.contract_pairing(&pairing);
 
-    match augmenting_path(&contracted_graph, &mut contracted_pairing) {
-        Some(path) => Some(blossom.lift(path, graph)),
-        None => None
+    Contraction {
+        blossom, graph: contracted_graph, pairing: contracted_pairing
     }
 }
 
-- 
2.43.0

