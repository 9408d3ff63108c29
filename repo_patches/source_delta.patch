From 92cf0f12022d29881ad5f1df778ff9ae36df6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 01/32] fix: can_join_samples must compare variables shared by
 any two samples, not only by all of them

---
 Python/research/scripts/relnet/sample_set.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..8219ced 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -175,10 +175,7 @@ class SampleSet(Samples):
         In case result sample graph will not connected AssertionError will be raise.
         :return: (new_sample, list_of_counts)
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
-                return False
-        return True
+        return self.is_all_values_match()
 
     def make_joined_sample(self) -> Tuple[SampleGraph, List[int]]:
         """
-- 
2.43.0


From cbf88aa1fe259e8be209f085c384ef48897c9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 02/32] fix: join_sample_set overflows the recursion limit on
 long lists of sample sets

---
 Python/research/scripts/relnet/sample_set.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 8219ced..9ca6413 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -263,12 +263,16 @@ class SampleSetBuilder(Samples):
         :param sample_sets: smple sets to be joined
         :return: joined sample set
         """
-        if len(sample_sets) > 1:
-            return sample_sets[0].union(SampleSetBuilder.join_sample_set(sample_sets[1:]))
-        else:
-            assert sample_sets, \
-                "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
-            return sample_sets[0]
+        assert sample_sets, \
+            "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
+
+        builder = sample_sets[0].builder()
+        for sample_set in sample_sets[1:]:
+            assert sample_sets[0].is_compatible(sample_set), \
+                f"[SampleSetBuilder.join_sample_set] Incompatible sample sets can't be joined, " \
+                f"{sample_sets[0]} incompatible to {sample_set}"
+            builder.add_all(sample_set)
+        return builder.build()
 
     def __init__(
             self,
-- 
2.43.0


From 77f2cb3b2542e716532393f6a245e90dd7a1b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 03/32] fix: group_intersecting iterates over label of single
 node variable

---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 9ca6413..e3dae19 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({sample.included_variables})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From 64f3dba2b4d597b2597c1d9ed7fafd401e2cf628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 04/32] fix: build_from_edges accepts conflicting relations and
 leaves partial edges when refused

---
 Python/research/scripts/relnet/sample_graph.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..012a97f 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -137,13 +137,21 @@ class SampleGraphBuilder:
             assert self.is_edges_connected(edges), \
                 f"[SampleGraphBuilder.build_from_edges] Passed edges are not form connected graph, edges: {edges}"
 
+        new_endpoints: Dict[frozenset[ValueNode], RelationEdge] = {}
         for endpoints, relation in edges:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
+            previous = new_endpoints.get(edge.endpoints, self._endpoints.get(edge.endpoints, edge))
+            assert edge == previous, \
+                f"[SampleGraphBuilder.build_from_edges] Conflicting edges {edge} and {previous} " \
+                f"in between of the same nodes"
+            new_endpoints[edge.endpoints] = edge
+
+        for edge in new_endpoints.values():
             self._edges.add(edge)
             self._endpoints[edge.endpoints] = edge
-            self._nodes.update(nodes)
+            self._nodes.update(edge.endpoints)
 
         return self.build()
 
-- 
2.43.0


From 2432fae99b45fe8058e08a84cb1bc82d020786a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 05/32] fix: is_edges_connected overflows the recursion limit
 on long chains

---
 Python/research/scripts/relnet/sample_graph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 012a97f..23c7e4e 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -47,13 +47,12 @@ class SampleGraphBuilder:
             tracing_map[endpoints[0]].add(endpoints[1])
             tracing_map[endpoints[1]].add(endpoints[0])
 
-        def trace(start_node: (Any, Any)):
-            if start_node not in traced:
-                traced.add(start_node)
-                for next_node in tracing_map[start_node]:
-                    trace(next_node)
-
-        trace(next(iter(tracing_map.keys())))
+        to_trace = [next(iter(tracing_map.keys()))]
+        while to_trace:
+            node = to_trace.pop()
+            if node not in traced:
+                traced.add(node)
+                to_trace.extend(tracing_map[node])
         return len(tracing_map) == len(traced)
 
     @staticmethod
-- 
2.43.0


From 3244e0487efa023d78034762f765f6f07b6a195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 06/32] fix: refused join_sample leaves part of the sample in
 the builder

---
 Python/research/scripts/relnet/sample_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 23c7e4e..fa72ac8 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -245,7 +245,12 @@ class SampleGraphBuilder:
                 join_edges(not_connected)
 
         if sample.edges:
-            join_edges(set(sample.edges))
+            previous = set(self._nodes), set(self._edges), dict(self._endpoints)
+            try:
+                join_edges(set(sample.edges))
+            except AssertionError:
+                self._nodes, self._edges, self._endpoints = previous
+                raise
         else:  # Single node graph
             assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), \
                 f"[SampleGraphBuilder.join_sample] Single node sample can be joined only " \
-- 
2.43.0


From 1b1eefbf7ca690208f61d802ecdd235b91ae960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 07/32] fix: join_sample overflows the recursion limit on long
 chains

---
 Python/research/scripts/relnet/sample_graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index fa72ac8..6c34222 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -217,7 +217,7 @@ class SampleGraphBuilder:
         def is_connected(edge: RelationEdge) -> bool:
             return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes
 
-        def join_edges(edges: Set[RelationEdge]) -> None:
+        def join_edges(edges: Set[RelationEdge]) -> Set[RelationEdge]:
             not_connected = set({})
 
             for edge in edges:
@@ -241,13 +241,14 @@ class SampleGraphBuilder:
                 f"[SampleGraphBuilder.join_sample] One or both endpoint should be previously added, " \
                 f"to keep graph connected, got not connected edges  {edges} where previously added {self._nodes}"
 
-            if not_connected:
-                join_edges(not_connected)
+            return not_connected
 
         if sample.edges:
             previous = set(self._nodes), set(self._edges), dict(self._endpoints)
             try:
-                join_edges(set(sample.edges))
+                to_join = set(sample.edges)
+                while to_join:
+                    to_join = join_edges(to_join)
             except AssertionError:
                 self._nodes, self._edges, self._endpoints = previous
                 raise
-- 
2.43.0


From b2d45b7818b0987fbf170379f5c9a0c3f43da0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 08/32] fix: external_nodes overflows the recursion limit on
 long chains

---
 .../research/scripts/relnet/sample_graph.py   | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 6c34222..38cc600 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -486,19 +486,12 @@ class SampleGraph:
                                 if None then select all neighbors.
         :return: Dict[external_node, Set[relation_edge_which_lead_to_internal_node]]
         """
-        acc_nodes = self.belt_nodes(internal_nodes, relation_filter)
-        if acc_nodes:
-            for node, edges in self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter).items():
-                if node in acc_nodes:
-                    assert acc_nodes[node].isdisjoint(edges), \
-                        "[SampleGraph.external_nodes] sample graph can't have identical edges " \
-                        "and they can't be checked twice, look like bug."
-                    acc_nodes[node].update(edges)
-                else:
-                    acc_nodes[node] = edges
-            return acc_nodes
-        else:
-            return {}  # All value nodes checked
+        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = {}
+        belt = self.belt_nodes(internal_nodes, relation_filter)
+        while belt:
+            acc_nodes.update(belt)  # Belt never contains already found nodes
+            belt = self.belt_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter)
+        return acc_nodes
 
     def variables_subgraph_hash(self, variables: Set[Any]) -> frozenset[Any]:
         """
-- 
2.43.0


From f8ea6bbfeeb9a8741cbbccfac782b26ec2ae0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 09/32] fix: similarity of two empty samples divides by zero

---
 Python/research/scripts/relnet/sample_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 38cc600..388d696 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -444,6 +444,8 @@ class SampleGraph:
         """
         intersect_hash = self.hash.intersection(other.hash)
         differ_hash = self.hash.symmetric_difference(other.hash)
+        if not intersect_hash and not differ_hash:
+            return 1.0  # Both samples are empty
         return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))
 
     def belt_nodes(
-- 
2.43.0


From 3e01f5230a8236a64f586e8b690777a9dd389bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 10/32] fix: vocabulary of network follows later edits of the
 collections passed by caller

---
 Python/research/scripts/relnet/graph_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index d6b9d08..7a5ee14 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -169,8 +169,8 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
         assert relations, \
             f"[BuilderComponentsProvider.__init__] Set of relations should not be empty."
 
-        self._variables: Dict[Any, Set[Any]] = variables
-        self._relations: Set[Any] = relations
+        self._variables: Dict[Any, Set[Any]] = {var: set(values) for var, values in variables.items()}
+        self._relations: Set[Any] = set(relations)
         self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}
         self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}
 
-- 
2.43.0


From 60d892034f7ab66b31b14344edbaa91c1c7749d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 11/32] fix: visualize_outcomes merges nodes of different
 outcomes with clashing ids

---
 Python/research/scripts/relnet/sample_space.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..7178a58 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -206,23 +206,23 @@ class SampleSpace:
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
             head_node = node_list[0]
-            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")
+            net.add_node(f"{i}_{head_node.string_id}", label=f"{head_node.string_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
-                net.add_node(node.string_id + str(i), label=node.string_id)
+                net.add_node(f"{i}_{node.string_id}", label=node.string_id)
 
             for edge in outcome.edges:
                 ep = list(edge.endpoints)
-                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
+                net.add_edge(f"{i}_{ep[0].string_id}", f"{i}_{ep[1].string_id}", label=str(edge.relation))
 
         if self._evidence:
             for node in self._evidence.nodes:
-                net.add_node(node.string_id + "_query", label=node.string_id, color="red")
+                net.add_node(f"query_{node.string_id}", label=node.string_id, color="red")
 
             for edge in self._evidence.edges:
                 ep = list(edge.endpoints)
                 net.add_edge(
-                    ep[0].string_id + "_query", ep[1].string_id + "_query", label=str(edge.relation), color="red")
+                    f"query_{ep[0].string_id}", f"query_{ep[1].string_id}", label=str(edge.relation), color="red")
 
         net.show(f"{file_name}.html")
 
-- 
2.43.0


From 727049244b1ad5c570e58665214f11124c58017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 12/32] fix: repr of variables edges fails for endpoints of
 different types

---
 Python/research/scripts/relnet/activation_graph.py | 2 +-
 Python/research/scripts/relnet/folded_graph.py     | 2 +-
 Python/research/scripts/relnet/variables_graph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/activation_graph.py b/Python/research/scripts/relnet/activation_graph.py
index 49cf148..977ac03 100644
--- a/Python/research/scripts/relnet/activation_graph.py
+++ b/Python/research/scripts/relnet/activation_graph.py
@@ -62,7 +62,7 @@ class ActiveEdge(VariableEdge):
         self._relation_edges_dict: Dict[Any, int] = relations
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted([str(ep) for ep in self.endpoints])
         relations = ",".join(sorted([f"{r}({c})" for r, c in self.relations]))
         in_query = "Q" if self.in_query else ""
         return f"({ep[0]})--{in_query}{{{relations}}}--({ep[1]})"
diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 8d63adc..746f54b 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -92,7 +92,7 @@ class FoldedEdge(VariableEdge):
         self._relation_edges_dict: Dict[RelationEdge, int] = relation_edges
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted([str(ep) for ep in self.endpoints])
         relations = ",".join(sorted([f"{e.relation}({c})" for e, c in self.relation_edges]))
         return f"({ep[0]})--{{{relations}}}--({ep[1]})"
 
diff --git a/Python/research/scripts/relnet/variables_graph.py b/Python/research/scripts/relnet/variables_graph.py
index 960120f..e6f04b7 100644
--- a/Python/research/scripts/relnet/variables_graph.py
+++ b/Python/research/scripts/relnet/variables_graph.py
@@ -61,7 +61,7 @@ class VariableEdge:
         raise AssertionError("[VariableEdge.__copy__] variable edge should not be copied")
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted([str(ep) for ep in self.endpoints])
         return f"({ep[0]})--({ep[1]})"
 
     def __hash__(self):
-- 
2.43.0


From 64d6618288853c2834b1a6b9f6c31058bd6d3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 13/32] fix: deep copy of game state forgets that game was won
 or lost

---
 Python/research/scripts/demo/game.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..2570703 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -400,6 +400,8 @@ class GameStateData:
         state._foodEaten = self._foodEaten
         state._foodAdded = self._foodAdded
         state._capsuleEaten = self._capsuleEaten
+        state._lose = self._lose
+        state._win = self._win
         return state
 
     def copyAgentStates( self, agentStates ):
-- 
2.43.0


From fbb770e48c020a46421c21ff3833f1e9025a660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 14/32] fix: alarm stays armed after timed function raised an
 exception

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..306b7e4 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -630,8 +630,8 @@ class TimeoutFunction:
             try:
                 result = self.function(*args, **keyArgs)
             finally:
+                signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From 502eab1b13dd2d35cdf084ab4517b31675525d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 15/32] fix: Counter.argMax and Counter.sortedKeys fail on
 Python 3

---
 Python/research/scripts/demo/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 306b7e4..6eccf5f 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -295,7 +295,7 @@ class Counter(dict):
         Returns the key with the highest value.
         """
         if len(self.keys()) == 0: return None
-        all = self.items()
+        all = list(self.items())
         values = [x[1] for x in all]
         maxIndex = values.index(max(values))
         return all[maxIndex][0]
@@ -312,9 +312,7 @@ class Counter(dict):
         >>> a.sortedKeys()
         ['second', 'third', 'first']
         """
-        sortedItems = self.items()
-        compare = lambda x, y:  sign(y[1] - x[1])
-        sortedItems.sort(cmp=compare)
+        sortedItems = sorted(self.items(), key=lambda x: x[1], reverse=True)
         return [x[0] for x in sortedItems]
 
     def totalCount(self):
-- 
2.43.0


From a2ead8d5e906bf21f112337e6a8cac8d4b6eeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 16/32] fix: sampling runs out of distribution when it sums to
 slightly less then 1

---
 Python/research/scripts/demo/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 6eccf5f..4fc0b10 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -483,7 +483,7 @@ def nSample(distribution, values, n):
             samples.append(values[distPos])
         else:
             distPos += 1
-            cdf += distribution[distPos]
+            cdf = cdf + distribution[distPos] if distPos < len(distribution) - 1 else 1.0
     return samples
 
 def sample(distribution, values = None):
@@ -495,7 +495,7 @@ def sample(distribution, values = None):
         distribution = normalize(distribution)
     choice = random.random()
     i, total= 0, distribution[0]
-    while choice > total:
+    while choice > total and i < len(distribution) - 1:
         i += 1
         total += distribution[i]
     return values[i]
-- 
2.43.0


From cefbeff883160e920dbf3e5bac609e4efed0b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 17/32] fix: getLayout leaves changed working directory when
 layout is malformed

---
 Python/research/scripts/demo/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/layout.py b/Python/research/scripts/demo/layout.py
index ebba32a..a37adfc 100644
--- a/Python/research/scripts/demo/layout.py
+++ b/Python/research/scripts/demo/layout.py
@@ -139,8 +139,10 @@ def getLayout(name, back = 2):
     if layout == None and back >= 0:
         curdir = os.path.abspath('.')
         os.chdir('..')
-        layout = getLayout(name, back -1)
-        os.chdir(curdir)
+        try:
+            layout = getLayout(name, back -1)
+        finally:
+            os.chdir(curdir)
     return layout
 
 def tryToLoad(fullname):
-- 
2.43.0


From 6567d9ad7c022e27aa59147e787ef53ea0a04739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:17 +0000
Subject: [PATCH 18/32] fix: make_joined treats a value missing from a factor
 as impossible instead of ignoring the factor

---
 Python/research/scripts/relnet/relation_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 85b9abd..476c70f 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -326,9 +326,10 @@ class RelationGraph(SampleSpace):
             joined_factor = SampleSetBuilder(self._components_provider)
             for val in values:
                 outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var]
-                joined_factor.add_all(join_factors(
-                    [os for os in outcomes_for_val if os],
-                    SampleSetBuilder(self._components_provider)))
+                if all(outcomes_for_val):  # Value impossible in one of factors is impossible in joined distribution
+                    joined_factor.add_all(join_factors(
+                        outcomes_for_val,
+                        SampleSetBuilder(self._components_provider)))
             factors = factors.difference(factors_for_var)
             factors = factors.union(frozenset({joined_factor.build()}))
 
-- 
2.43.0


From 6ff230a43ec3a1bb78ef4038255fc0bc7898716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 19/32] fix: group_intersecting merges groups in a loop instead
 of recursion

---
 Python/research/scripts/relnet/sample_set.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index e3dae19..f2fd8f3 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -150,14 +150,16 @@ class SampleSet(Samples):
             else:
                 sample_acc[key] = {sample: count}
 
-        def group():
+        def group() -> bool:
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
                         sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
-                        group()
-                        return
-        group()
+                        return True
+            return False
+
+        while group():
+            pass
         grouped = {
             frozenset({v for vs in key for v in vs}): SampleSet(self._components_provider, samples)
             for key, samples in sample_acc.items()}
-- 
2.43.0


From b5fc7ed51cc92bdbe649790c9b93010c6dd7b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:52 +0000
Subject: [PATCH 20/32] fix: group_intersecting loses samples when merging two
 groups yields the key of a third one

---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index f2fd8f3..c3bf08e 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        sample_acc[k_a | k_b] = \
+                            sample_acc.pop(k_a) | sample_acc.pop(k_b) | sample_acc.pop(k_a | k_b, {})
                         return True
             return False
 
-- 
2.43.0


From 8e1fba7ed38de428bfe00611e8f00359c752973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:53 +0000
Subject: [PATCH 21/32] fix: successor of game state marks a caught ghost as
 eaten in the previous state too

GameStateData shared the _eaten list between a state and its successors and copies.
---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 2570703..5abf49d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From d7f07ecdf21f04ecb45af147927add12e5b7cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:53 +0000
Subject: [PATCH 22/32] fix: deep copy of game state shares agent
 configurations and forgets the score change

An agent editing the configuration in the private copy it was given altered the running game.
---
 Python/research/scripts/demo/game.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 5abf49d..956f756 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -21,7 +21,7 @@
 # For more info, see http://inst.eecs.berkeley.edu/~cs188/sp09/pacman.html
 
 from util import *
-import time, os
+import time, os, copy
 import traceback
 import sys
 
@@ -396,12 +396,14 @@ class GameStateData:
         state = GameStateData( self )
         state.food = self.food.deepCopy()
         state.layout = self.layout.deepCopy()
+        state.agentStates = copy.deepcopy(self.agentStates)
         state._agentMoved = self._agentMoved
         state._foodEaten = self._foodEaten
         state._foodAdded = self._foodAdded
         state._capsuleEaten = self._capsuleEaten
         state._lose = self._lose
         state._win = self._win
+        state.scoreChange = self.scoreChange
         return state
 
     def copyAgentStates( self, agentStates ):
-- 
2.43.0


From 48c551dd5177c4f2b3d3634d0aa6cb182c234150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:53 +0000
Subject: [PATCH 23/32] fix: chooseFromDistribution returns nothing on rounding
 and fails on plain dictionaries

---
 Python/research/scripts/demo/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 4fc0b10..95b53c5 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -487,7 +487,7 @@ def nSample(distribution, values, n):
     return samples
 
 def sample(distribution, values = None):
-    if type(distribution) == Counter:
+    if isinstance(distribution, dict):
         items = sorted(distribution.items())
         distribution = [i[1] for i in items]
         values = [i[0] for i in items]
@@ -527,7 +527,8 @@ def chooseFromDistribution( distribution ):
     base = 0.0
     for prob, element in distribution:
         base += prob
-        if r <= base: return element
+        if r <= base: break
+    return element
 
 def nearestPoint( pos ):
     """
-- 
2.43.0


From 8fec0eab8e377c00999c2d1b5d8a3fd2fc05d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:53 +0000
Subject: [PATCH 24/32] fix: directional ghost without legal moves fails
 instead of stopping

---
 Python/research/scripts/demo/ghostAgents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Python/research/scripts/demo/ghostAgents.py b/Python/research/scripts/demo/ghostAgents.py
index c3afe1f..6c9b27f 100644
--- a/Python/research/scripts/demo/ghostAgents.py
+++ b/Python/research/scripts/demo/ghostAgents.py
@@ -53,6 +53,7 @@ class DirectionalGhost( GhostAgent ):
         # Read variables from state
         ghostState = state.getGhostState( self.index )
         legalActions = state.getLegalActions( self.index )
+        if len(legalActions) == 0: return util.Counter()
         pos = state.getGhostPosition( self.index )
         isScared = ghostState.scaredTimer > 0
 
-- 
2.43.0


From c7c6171e1f90631152929ec83a6a8e6d686d191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 25/32] fix: belief distributions are drawn for the first cell
 only

map() returns an iterator on Python 3, exhausted after the first cell.
---
 Python/research/scripts/demo/graphicsDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index bd53e9a..5c5716f 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -589,7 +589,7 @@ class PacmanGraphics:
     def updateDistributions(self, distributions):
         "Draws an agent's belief distributions"
         # copy all distributions so we don't change their state
-        distributions = map(lambda x: x.copy(), distributions)
+        distributions = list(map(lambda x: x.copy(), distributions))
         if self.distributionImages == None:
             self.drawDistributions(self.previousState)
         for x in range(len(self.distributionImages)):
-- 
2.43.0


From a4458b9990a938d6a7d15d9690955a18f833029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 26/32] fix: make_joined of contradicting factors is refused or
 empty depending on hash seed

---
 Python/research/scripts/relnet/relation_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 476c70f..3e5de31 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -332,6 +332,9 @@ class RelationGraph(SampleSpace):
                         SampleSetBuilder(self._components_provider)))
             factors = factors.difference(factors_for_var)
             factors = factors.union(frozenset({joined_factor.build()}))
+            if not joined_factor:  # No consistent choice of outcomes, so joined distribution is empty
+                factors = frozenset({})
+                break
 
         assert len(factors) <= 1, \
             f"[RelationGraph.make_joined] Expect number of factors after joining to be 1 or 0, got {len(factors)}"
-- 
2.43.0


From e82284803c04a95d4b4a48f7c7cdb78530ed33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 27/32] fix: read value numbers of several digits when
 comparing with the Bayesian network

---
 .../scripts/experiments/comparing_with_bayes_network.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/experiments/comparing_with_bayes_network.py b/Python/research/scripts/experiments/comparing_with_bayes_network.py
index 289b86f..41e7b83 100644
--- a/Python/research/scripts/experiments/comparing_with_bayes_network.py
+++ b/Python/research/scripts/experiments/comparing_with_bayes_network.py
@@ -122,7 +122,7 @@ def make_relation_graph() -> RelationGraph:
 
 
 def _value_map_from_factor(factor: DiscreteFactor) -> Dict[frozenset[str], float]:
-    return {frozenset(vs): factor.get_value(**{v[0]: int(v[2]) for v in vs})
+    return {frozenset(vs): factor.get_value(**{v[0]: int(v[2:-1]) for v in vs})
             for vs in _value_combination(list(zip(factor.variables, factor.cardinality)))}
 
 
-- 
2.43.0


From 4b940b3bd90045876b3da8fa936d5603df325091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 28/32] fix: marginal distribution of a folded node overflows
 for counts beyond the range of floats

---
 Python/research/scripts/relnet/folded_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 746f54b..2ffe2cb 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -63,7 +63,7 @@ class FoldedNode(VariableNode):
         then normalize all counts ant return.
         :return:  Dict[value, normalized_marginal_probability]
         """
-        acc: Dict[Any, float] = {v: 0.0 for v in self.values}
+        acc: Dict[Any, int] = {v: 0 for v in self.values}
         total: int = 0
 
         for value_node, count in self.value_nodes:
-- 
2.43.0


From 429a5778a4c5e5ea5f9bd93b7502cf01e2347a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 29/32] fix: activation weights overflow for counts beyond the
 range of floats

---
 Python/research/scripts/relnet/conditional_graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/conditional_graph.py b/Python/research/scripts/relnet/conditional_graph.py
index 9a13e8b..f2ab5d5 100644
--- a/Python/research/scripts/relnet/conditional_graph.py
+++ b/Python/research/scripts/relnet/conditional_graph.py
@@ -18,6 +18,7 @@ website: github.com/alexcab
 created: 2021-08-09
 """
 
+from fractions import Fraction
 from typing import Dict, Any, Set, Optional
 
 from .activation_graph import ActivationGraph, ActiveNode, ActiveEdge
@@ -67,7 +68,7 @@ class ConditionalGraph(SampleSpace):
         :return ActivationGraph: activation graph:
         """
         grouped_values: Dict[Any, (Dict[Any, float], bool)] = {
-            var: ({val: 0.0 for val in values}, var in self.evidence.included_variables)
+            var: ({val: Fraction(0) for val in values}, var in self.evidence.included_variables)
             for var, values in self._components_provider.variables()}
 
         grouped_relations: Dict[frozenset[Any], (Dict[Any, int], bool)] = {}
@@ -75,8 +76,8 @@ class ConditionalGraph(SampleSpace):
         for outcome, count in self.outcomes.items():
             similarity = outcome.similarity(self.evidence)
             external_nodes = outcome.external_nodes(set(self.evidence.nodes), relation_filter)
-            out_query_nodes = {node: (similarity * count, False) for node in external_nodes.keys()}
-            in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}
+            out_query_nodes = {node: (Fraction(similarity) * count, False) for node in external_nodes.keys()}
+            in_query_nodes = {node: (Fraction(count), True) for node in self.evidence.nodes.intersection(outcome.nodes)}
             out_query_edges = {(edge, False) for rel_edges in external_nodes.values() for edge in rel_edges}
             in_query_edges = {(edge, True) for edge in self.evidence.edges}
 
@@ -106,7 +107,7 @@ class ConditionalGraph(SampleSpace):
         return ActivationGraph(
             self._components_provider,
             self.outcomes.length,
-            {ActiveNode(var, {v: w / self.outcomes.length for v, w in values.items()}, in_query)
+            {ActiveNode(var, {v: float(w / self.outcomes.length) for v, w in values.items()}, in_query)
              for var, (values, in_query) in grouped_values.items()},
             {ActiveEdge(set(endpoints), relations, in_query)
              for endpoints, (relations, in_query) in grouped_relations.items()},
-- 
2.43.0


From d6ea19c63f190886c616d311cf118f8a373c57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:01 +0000
Subject: [PATCH 30/32] fix: joining all samples of a set is refused when they
 were added in an unlucky order

---
 Python/research/scripts/relnet/sample_set.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c3bf08e..ecbade5 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -188,8 +188,13 @@ class SampleSet(Samples):
         :return: (new_sample, list_of_counts)
         """
         sgb = SampleGraphBuilder(self._components_provider)
-        for s in self._samples.keys():
-            sgb.join_sample(s)
+        to_join = list(self._samples.keys())
+        joined_nodes = set({})
+        while to_join:  # Next one is which connected to already joined, so order of samples is not matter
+            sample = next((s for s in to_join if not s.nodes.isdisjoint(joined_nodes)), to_join[0])
+            sgb.join_sample(sample)
+            joined_nodes.update(sample.nodes)
+            to_join.remove(sample)
         return sgb.build(), list(self._samples.values())
 
     def is_all_values_match(self) -> bool:
-- 
2.43.0


From b55a12a856fd34926802fb12ef1992156b5d87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 31/32] fix: joining overflows the recursion limit when many
 factors share a variable

---
 .../research/scripts/relnet/relation_graph.py | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 3e5de31..03f3e50 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -20,6 +20,7 @@ created: 2021-08-09
 
 from typing import List, Dict, Set, Any, Tuple, Optional, Callable
 from math import prod
+from itertools import product
 
 from .graph_components import SampleGraphComponentsProvider, BuilderComponentsProvider
 from .conditional_graph import ConditionalGraph
@@ -248,22 +249,19 @@ class RelationGraph(SampleSpace):
         join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}
         outcomes_acc: SampleSetBuilder = self.outcomes.builder()
 
-        def cross_join(groups: List[SampleSet], joints: SampleSetBuilder) -> SampleSet:
+        def cross_join(groups: List[SampleSet]) -> SampleSet:
             ssb = SampleSetBuilder(self._components_provider)
-            if not groups:  # To join if groups empty
-                joints_set = joints.build()
+            for combination in product(*[group.items() for group in groups]):
+                joints_set = SampleSet(self._components_provider, dict(combination))
                 if joints_set and joints_set.is_all_values_match():
-                    joined_sample, counts = joints.build().make_joined_sample()
+                    joined_sample, counts = joints_set.make_joined_sample()
                     ssb.add(joined_sample, prod(counts))
-            else:
-                for s, c in groups[0].items():
-                    ssb.add_all(cross_join(groups[1:], joints.copy().add(s, c)))
             return ssb.build()
 
         for join_var in join_variables:
             join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)
             groped_outcomes = join_outcomes.group_intersecting()
-            joined_outcomes = cross_join(list(groped_outcomes.values()), SampleSetBuilder(self._components_provider))
+            joined_outcomes = cross_join(list(groped_outcomes.values()))
             outcomes_acc.remove_all(join_outcomes)
             outcomes_acc.add_all(joined_outcomes)
 
@@ -307,17 +305,14 @@ class RelationGraph(SampleSpace):
         :return: New instance of relation graph which contains joined distribution
         """
 
-        def join_factors(outcomes: List[Dict[SampleGraph, int]], acc: SampleSetBuilder) -> SampleSet:
-            if outcomes:
-                return SampleSetBuilder.join_sample_set(
-                    [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
-            else:
-                ss = acc.build()
+        def join_factors(outcomes: List[Dict[SampleGraph, int]]) -> SampleSet:
+            ssb = SampleSetBuilder(self._components_provider)
+            for combination in product(*[o.items() for o in outcomes]):
+                ss = SampleSet(self._components_provider, dict(combination))
                 if ss.can_join_samples():
-                    bo, cs = acc.build().make_joined_sample()
-                    return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
-                else:
-                    return SampleSetBuilder(self._components_provider).empty()
+                    bo, cs = ss.make_joined_sample()
+                    ssb.add(bo, prod(cs))
+            return ssb.build()
 
         factors: frozenset[SampleSet] = self.factorized()
 
@@ -327,9 +322,7 @@ class RelationGraph(SampleSpace):
             for val in values:
                 outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var]
                 if all(outcomes_for_val):  # Value impossible in one of factors is impossible in joined distribution
-                    joined_factor.add_all(join_factors(
-                        outcomes_for_val,
-                        SampleSetBuilder(self._components_provider)))
+                    joined_factor.add_all(join_factors(outcomes_for_val))
             factors = factors.difference(factors_for_var)
             factors = factors.union(frozenset({joined_factor.build()}))
             if not joined_factor:  # No consistent choice of outcomes, so joined distribution is empty
-- 
2.43.0


From 296ada1c6820a1fce8c77d376f11517a7325336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 32/32] fix: an error of a muted agent leaves the output
 streams redirected

---
 Python/research/scripts/demo/game.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 956f756..220f72b 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -572,6 +572,14 @@ class Game:
         """
         Main control loop for game play.
         """
+        streams = sys.stdout, sys.stderr
+        try:
+            self._play()
+        finally:
+            # an error of a muted agent leaves the loop without unmuting
+            if self.muteAgents: sys.stdout, sys.stderr = streams
+
+    def _play( self ):
         self.display.initialize(self.state.data)
         self.numMoves = 0
 
-- 
2.43.0

