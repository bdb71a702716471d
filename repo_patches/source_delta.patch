From 80ea54a3b910c1c036634f20e118de18b844210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 1/8] fix: count a repeated term once when building a
 dictionary

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..a9a429b 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -17,6 +17,11 @@ auto SortedDawg::add(const std::string &term) -> bool {
     return false;
   }
 
+  // A repeated term is already in the dictionary, do not count it again
+  if (_size > 0 && term == _prev_term) {
+    return true;
+  }
+
   if (term.empty()) {
     _root->is_final(true);
     _prev_term = term;
-- 
2.43.0


From 511821899e637ec068bb8d4a81c32fea2d49708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 2/8] fix: reject additions to a finished or loaded dictionary

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index a9a429b..d4c66b0 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -13,6 +13,11 @@ SortedDawg::~SortedDawg() {
 }
 
 auto SortedDawg::add(const std::string &term) -> bool {
+  // Once construction has completed (or never began), the dictionary is frozen
+  if (unchecked_transitions == nullptr) {
+    return false;
+  }
+
   if (term < _prev_term) {
     return false;
   }
-- 
2.43.0


From dbc617f1d9904e36eb63ab394ec0700843ff367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 3/8] fix: report a failure to write the last buffer of a saved
 dictionary

---
 src/liblevenshtein/serialization/serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..723edd0 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -30,8 +30,8 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
   std::fstream output(path, std::fstream::out | std::fstream::trunc |
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
-  output.close();
-  return serialized;
+  output.close(); // may be where a failure to write is noticed
+  return serialized && output.good();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From c818642df42f4a741465c71d36c6344cbc767553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 4/8] fix: visit each node once when collecting the nodes of a
 dictionary

The time to destroy a dictionary was proportional to the number of paths in
its graph, so a loaded file of a few hundred bytes could take forever.
---
 src/liblevenshtein/collection/dawg.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg.cpp b/src/liblevenshtein/collection/dawg.cpp
index 2e8fbf9..5e3acfb 100644
--- a/src/liblevenshtein/collection/dawg.cpp
+++ b/src/liblevenshtein/collection/dawg.cpp
@@ -32,10 +32,11 @@ auto Dawg::all_nodes() const -> std::unordered_set<DawgNode *> {
   while (!pending.empty()) {
     DawgNode *node = pending.front();
     pending.pop();
-    nodes.insert(node);
-    node->for_each_edge([&](char label, DawgNode *target) {
-      pending.push(target);
-    });
+    if (nodes.insert(node).second) { // visit shared nodes once
+      node->for_each_edge([&](char label, DawgNode *target) {
+        pending.push(target);
+      });
+    }
   }
   return nodes;
 }
-- 
2.43.0


From cdc58a83e8000cfe98116a08ddba1709bf5529db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 5/8] fix: reject inconsistent dictionary data instead of
 crashing

Empty or truncated data, edges between unknown nodes, repeated edges, cycles,
unreachable nodes and a wrong number of terms are no longer accepted.
---
 .../serialization/serializer.cpp              | 67 +++++++++++++++++--
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 723edd0..f39024a 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <queue>
 #include <set>
 #include <utility>
 
@@ -125,6 +126,51 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
   return dict_proto;
 }
 
+// Whether the nodes make up an acyclic graph, all of it reachable from the
+// root, that accepts the given number of terms.
+static auto is_consistent(const std::map<uint64_t, DawgNode *> &nodes,
+                          DawgNode *root, uint64_t size) -> bool {
+  std::map<DawgNode *, std::size_t> num_incoming;
+  for (const auto &[node_id, node] : nodes) {
+    node->for_each_edge([&](char label, DawgNode *target) {
+      num_incoming[target] += 1;
+    });
+  }
+  if (num_incoming.contains(root)) {
+    return false;
+  }
+
+  bool overflow = false;
+  auto add = [&](uint64_t &total, uint64_t count) {
+    total += count;
+    overflow = overflow || total < count;
+  };
+
+  std::size_t num_visited = 0;
+  uint64_t num_terms = 0;
+  std::map<DawgNode *, uint64_t> num_paths = {{root, 1}};
+  std::queue<DawgNode *> pending;
+  pending.push(root);
+  while (!pending.empty()) {
+    DawgNode *node = pending.front();
+    pending.pop();
+    num_visited += 1;
+    uint64_t node_paths = num_paths[node];
+    if (node->is_final()) {
+      add(num_terms, node_paths);
+    }
+    node->for_each_edge([&](char label, DawgNode *target) {
+      add(num_paths[target], node_paths);
+      num_incoming[target] -= 1;
+      if (num_incoming[target] == 0) {
+        pending.push(target);
+      }
+    });
+  }
+
+  return num_visited == nodes.size() && num_terms == size && !overflow;
+}
+
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   std::set<uint64_t> final_node_ids;
   for (int index = 0; index < dict_proto.final_node_id_size(); index += 1) {
@@ -142,14 +188,27 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     }
   }
 
-  for (int index = 0; index < dict_proto.edge_size(); index += 1) {
+  bool is_valid = nodes.contains(dict_proto.root_id());
+  for (int index = 0; is_valid && index < dict_proto.edge_size(); index += 1) {
     const llp::Dictionary_Edge &edge_proto = dict_proto.edge(index);
     uint64_t source_id = edge_proto.source_id();
     char label = (char)edge_proto.label();
     uint64_t target_id = edge_proto.target_id();
-    DawgNode *source = nodes[source_id];
-    DawgNode *target = nodes[target_id];
-    source->add_edge(label, target);
+    is_valid = nodes.contains(source_id) && nodes.contains(target_id) &&
+               nodes[source_id]->transition(label) == nullptr;
+    if (is_valid) {
+      DawgNode *source = nodes[source_id];
+      DawgNode *target = nodes[target_id];
+      source->add_edge(label, target);
+    }
+  }
+
+  if (!is_valid || !is_consistent(nodes, nodes[dict_proto.root_id()],
+                                  dict_proto.size())) {
+    for (const auto &[node_id, node] : nodes) {
+      delete node;
+    }
+    return nullptr;
   }
 
   DawgNode *root = nodes[dict_proto.root_id()];
-- 
2.43.0


From 3559b192a6e80fee98a6a472f8af4a498abd4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:00 +0000
Subject: [PATCH 6/8] fix: adding an edge that a node already has no longer
 frees its target

---
 src/liblevenshtein/collection/dawg_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index 0c2965d..6d5badb 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -40,7 +40,9 @@ auto DawgNode::transition(char label) const -> DawgNode * {
 
 auto DawgNode::add_edge(char label, DawgNode *target) -> DawgNode * {
   DawgNode* existing = transition(label);
-  delete existing;
+  if (existing != target) { // the edge may exist already
+    delete existing;
+  }
   _edges[label] = target;
   return this;
 }
-- 
2.43.0


From 757106bc254b9f92a55321d305c55be3c1cdce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 7/8] fix: take the subsumed position's kind from rhs in
 subsumes()

---
 src/liblevenshtein/transducer/subsumes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/transducer/subsumes.cpp b/src/liblevenshtein/transducer/subsumes.cpp
index 9bd5c4b..a002966 100644
--- a/src/liblevenshtein/transducer/subsumes.cpp
+++ b/src/liblevenshtein/transducer/subsumes.cpp
@@ -21,7 +21,7 @@ auto subsumes<Algorithm::TRANSPOSITION>(Position *lhs, Position *rhs,
 
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
 
   if (s) {
     if (t) {
@@ -46,7 +46,7 @@ auto subsumes<Algorithm::MERGE_AND_SPLIT>(Position *lhs, Position *rhs,
   bool s = lhs->is_special();
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
 
   if (s && !t) {
     return false;
-- 
2.43.0


From 8922db4ca383d67a2768626b0d86b2bcfa4a719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:51 +0000
Subject: [PATCH 8/8] fix: do not lose characters of a term when memory runs
 out

Prefix::str() and Intersection::str() write to a string stream, which reports
a failed allocation by its badbit only.  The term came out truncated, and
queries and iterations yielded it without any sign of a failure.
---
 src/liblevenshtein/collection/prefix.cpp       | 1 +
 src/liblevenshtein/transducer/intersection.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/liblevenshtein/collection/prefix.cpp b/src/liblevenshtein/collection/prefix.cpp
index d3d2289..cf5ddc5 100644
--- a/src/liblevenshtein/collection/prefix.cpp
+++ b/src/liblevenshtein/collection/prefix.cpp
@@ -33,6 +33,7 @@ auto Prefix::label() const -> char {
 
 auto Prefix::str() const -> std::string {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit); // rather than lose characters
   ss << *this;
   return ss.str();
 }
diff --git a/src/liblevenshtein/transducer/intersection.cpp b/src/liblevenshtein/transducer/intersection.cpp
index 41bff4f..a576e7f 100644
--- a/src/liblevenshtein/transducer/intersection.cpp
+++ b/src/liblevenshtein/transducer/intersection.cpp
@@ -24,6 +24,7 @@ auto Intersection::state() const -> State * {
 
 auto Intersection::str() const -> std::string {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit); // rather than lose characters
   ss << *this;
   return ss.str();
 }
-- 
2.43.0

