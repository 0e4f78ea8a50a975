From 7d816090a61eb322dd34d1adfc662b47253e2fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 01/52] fix: UndirectedGraph.remove_edge also forgets the edge
 and its weight

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..bde90c8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -141,6 +141,7 @@ class UndirectedGraph:
 
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
+        del self._edges[tuple(sorted(edge))]
 
     def has_edge(self, edge: Tuple[str, str]) -> bool:
         """
-- 
2.43.0


From 4563c6d0bf744dd0ffafda019e7e2569d90db161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 02/52] fix: UndirectedGraph.graph and copy no longer share
 adjacency sets

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bde90c8..ef86221 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -734,7 +734,9 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {
+            vertex: connections.copy() for vertex, connections in self._graph.items()
+        }
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From f4bfe2a5d566d4e350aa2e3a351b9d738ede4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 03/52] fix: random traversal of an undirected graph yields its
 vertices

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ef86221..c823275 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -473,7 +473,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From 52ecd59b055d203d8b04c602ad487ae016379eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 04/52] fix: depth first traversal visits depth first

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index c823275..1cd247e 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -464,7 +464,6 @@ class UndirectedGraph:
       The iterator giving the current vertex of the walk.
 
     """
-        # TODO Add dfs
         if not self.has_vertex(start):
             raise ValueError("The starting vertex is not in graph.")
 
@@ -481,7 +480,7 @@ class UndirectedGraph:
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.pop() if method == "dfs" else queue.popleft()
 
             if current in visited:
                 continue
-- 
2.43.0


From de20329413a07686c4f81499688c0da095d8fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 05/52] fix: is_cyclic no longer takes every edge for a cycle

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 1cd247e..0fdfcdb 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -528,7 +528,7 @@ class UndirectedGraph:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(self._graph[current].difference(visited))
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From d9dd2dcc89c966d47b5721817b6871df5843678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 06/52] fix: partition builds the connected components

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 0fdfcdb..58eb1bd 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -578,15 +578,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From 83c0f74cc31d79ae02943c0ec01c8265ef9e81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 07/52] fix: shortest_path works on the current graph
 representation

---
 pytimize/graphs/_undirected.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 58eb1bd..a47ec1a 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -271,26 +271,23 @@ class UndirectedGraph:
             edges = set()
 
             for vertex in visited:
-                for edge in self._graph[vertex]:
-                    if edge[0] not in visited:
-                        edge_hash = self._hash_edge((edge[0], vertex))
-                        slack = edge[1] - (
-                            potential[edge_hash] if edge_hash in potential else 0
-                        )
+                for neighbour in self._graph[vertex]:
+                    if neighbour not in visited:
+                        edge = tuple(sorted((vertex, neighbour)))
+                        slack = self._edges[edge] - potential.get(edge, 0)
 
-                        # print(edge_hash, slack)
-
-                        edges.add(edge_hash)
+                        edges.add(edge)
 
                         if slack < best_slack:
                             best_slack = slack
-                            best_edge = vertex, edge[0], edge_hash
+                            best_edge = vertex, neighbour
 
-                        # print(visited, best_slack)
+            if best_edge is None:
+                raise ValueError("There is no path between the given vertices.")
 
-            for edge_hash in edges:
-                previous = potential.setdefault(edge_hash, 0)
-                potential[edge_hash] = previous + best_slack
+            for edge in edges:
+                previous = potential.setdefault(edge, 0)
+                potential[edge] = previous + best_slack
 
             visited.add(best_edge[1])
             directed_graph.setdefault(best_edge[1], []).append(best_edge[0])
-- 
2.43.0


From 4eba8b8eb084392bf22b79740960591b500f144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 08/52] fix: formulate_shortest_path works on the current graph
 representation

---
 pytimize/graphs/_undirected.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index a47ec1a..3e5f4d8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -312,7 +312,7 @@ class UndirectedGraph:
         if end not in self._graph:
             raise ValueError("Ending vertex is not in graph.")
 
-        vertices = self.vertices
+        vertices = list(self._vertices)
 
         vertices.remove(start)
         vertices.remove(end)
@@ -329,27 +329,14 @@ class UndirectedGraph:
             current_set.add(start)
             power_set.append(current_set)
 
-        graph_edges = self.edges
-        A = {
-            self._hash_edge((edge[0], edge[1])): np.zeros(len(power_set))
-            for edge in graph_edges
-        }
+        A = {edge: np.zeros(len(power_set)) for edge in self._edges}
 
         for i, group in enumerate(power_set):
-            edges = set()
-
-            for vertex in group:
-                edges = edges.union(
-                    map(lambda x: self._hash_edge((vertex, x[0])), self._graph[vertex])
-                )
-
-            for edge in filter(lambda x: x[0] not in group or x[1] not in group, edges):
+            for edge in self.cut(group):
                 A[edge][i] = 1
 
         ordered_A = []
-        ordered_edges = (
-            []
-        )  # ordered edges must point back to actual edges not hash TODO
+        ordered_edges = []
 
         for edge, coefficients in A.items():
             ordered_A.append(coefficients)
@@ -360,8 +347,8 @@ class UndirectedGraph:
         result_c = np.zeros(len(ordered_edges))
         constraints = result_A.shape[0]
 
-        for edge in graph_edges:
-            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = edge[2]
+        for edge, weight in self._edges.items():
+            result_c[edge_positions[edge]] = weight
 
         return LinearProgram(
             result_A, np.ones(constraints), result_c, 0, "min", [">="] * constraints
-- 
2.43.0


From 0314cc8b86a90a09264405df88a3c8650206d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 09/52] fix: formulate_max_stable_set accepts graphs without
 edges

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 3e5f4d8..f474dc1 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -387,7 +387,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((1, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
-- 
2.43.0


From 77b32a1598887b8e3bf355b551b4ffd6a3119499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 10/52] fix: a string given to cut or ncut is one name, not its
 letters

---
 pytimize/graphs/_directed.py   | 8 ++++++--
 pytimize/graphs/_undirected.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..94665fa 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -195,7 +195,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return set(
@@ -220,7 +222,9 @@ class DirectedGraph:
 
         """
 
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return list(
diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index f474dc1..d7d9533 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -369,7 +369,9 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
+        if isinstance(vertices, str):
+            vertices = {vertices}
+        elif not isinstance(vertices, set):
             vertices = set(vertices)
 
         return set(
-- 
2.43.0


From ec7042001af512816b1044072e2b9565e78c88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 11/52] fix: add_arc takes a single demand for one new node and
 leaves the digraph alone when demands are malformed

---
 pytimize/graphs/_directed.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 94665fa..f64532a 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,24 +97,28 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
+        a_demand = b_demand = 0
 
-        if not a_exists and not b_exists:
-            if demands and not isinstance(demands, tuple):
+        if demands:
+            if isinstance(demands, tuple):
+                a_demand, b_demand = demands
+            elif not a_exists and not b_exists:
                 raise TypeError(
                     "Demands must be a tuple of floats when both endpoints are new nodes."
                 )
+            else:
+                a_demand = b_demand = demands
+
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
+
+        if not a_exists:
+            self.add_node(arc[0], a_demand)
 
-            self.add_node(arc[0], demands[0] if demands else 0)
-            self.add_node(arc[1], demands[1] if demands else 0)
-        elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
-        elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+        if not b_exists:
+            self.add_node(arc[1], b_demand)
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From cb4f1a4c28c5afd72210ac792f1f0f248b2237d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 12/52] fix: maximum flows and residuals account for opposite
 arcs, direct arcs and rounding

---
 pytimize/graphs/_directed.py | 92 +++++++++++++++---------------------
 1 file changed, 38 insertions(+), 54 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index f64532a..7ce2008 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -353,13 +353,41 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                endpoints = residual.setdefault(u, {})
+                endpoints[v] = endpoints.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                endpoints = residual.setdefault(v, {})
+                endpoints[u] = endpoints.get(u, 0) + value
 
         return residual
 
+    def _push(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        u: str,
+        v: str,
+        value: float,
+    ) -> None:
+        # Flow on the opposite arc is cancelled before the arc itself is used
+        cancelled = min(flow.get((v, u), 0), value)
+
+        if cancelled > 0:
+            flow[(v, u)] -= cancelled
+
+        if value > cancelled:
+            flow[(u, v)] += value - cancelled
+
+        for a, b in ((u, v), (v, u)):
+            capacity = self._arcs.get((a, b), 0) - flow.get((a, b), 0)
+            capacity += flow.get((b, a), 0)
+
+            if capacity > 0:
+                residual.setdefault(a, {})[b] = capacity
+            elif a in residual:
+                residual[a].pop(b, None)
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -406,44 +434,21 @@ class DirectedGraph:
             excess[node] = sum(flow[arc] for arc in self.ncut(node))
             excess[node] -= sum(flow[arc] for arc in self.cut(node))
 
+        # Anything smaller is rounding error, which may have nowhere to go
+        tolerance = 1e-10 * max([1, *self._arcs.values()])
+
         while index < len(nodes):
             node = nodes[index]
 
-            if excess[node] > 0:
+            if excess[node] > tolerance:
                 pushed = False
 
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
-
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
 
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push(flow, residual, node, endpoint, push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -465,8 +470,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
@@ -540,28 +545,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push(flow, residual, u, v, min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 01db8c9201c2429063a0883a334318880541792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 13/52] fix: programs keep their own copy of the arrays they
 are built from

---
 pytimize/programs/_linear.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..ab07536 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1663,10 +1663,7 @@ class LinearProgram:
             if not np.issubdtype(source.dtype, np.number):
                 raise ValueError()
 
-            if not np.issubdtype(source.dtype, np.floating):
-                source = source.astype(float)
-
-            return source
+            return source.astype(float)
 
         if isinstance(source, list):
             length = None
-- 
2.43.0


From faf23c9117b1b94697e90faeaebb0a376b7a75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 14/52] fix: solve starts from the slack basis only when it is
 feasible

---
 pytimize/programs/_linear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ab07536..fb16589 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -926,13 +926,10 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
-                try:
-                    solution = sef.simplex(basis_candidate, show_steps)[0]
+            if sef.is_basis_feasible(basis_candidate):
+                solution = sef.simplex(basis_candidate, show_steps)[0]
 
-                    if solution is None:
-                        return None
-                except ArithmeticError:
+                if solution is None:
                     return None
 
         if solution is None:
-- 
2.43.0


From 2f99d06cd4e70b573a91300221a1fcdc7c0fbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 15/52] fix: basic solutions of unsorted bases assign each
 value to its own column

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index fb16589..5851d64 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1700,8 +1700,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From adc5a26aa5f81d493f9e0cf0bed94e7614b84488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 16/52] fix: is_canonical_form_for and
 is_feasible_basic_solution use columns and sizes correctly

---
 pytimize/programs/_linear.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5851d64..07f4e60 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -531,15 +531,14 @@ class LinearProgram:
             Whether or not the model is in canonical form for the basis.
 
         """
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__array_like_to_list(basis)
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
-        return all(
-            [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
-                np.allclose(self._c[basis], 0),
-            ]
+        return np.allclose(self._A[:, basis], np.eye(len(basis))) and np.allclose(
+            self._c[basis], 0
         )
 
     def optimal_value(self):
@@ -620,7 +619,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From 90d3c52f113d907a813002ec94318fc9433324bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 17/52] fix: clear_steps terminates when not in place

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 07f4e60..70b656d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1640,7 +1640,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From cf75885c95af182a17ec634c6855b0177462d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 18/52] fix: programs can be compared for equality

---
 pytimize/programs/_linear.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 70b656d..84f4fe5 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -393,9 +393,10 @@ class LinearProgram:
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            isinstance(other, LinearProgram)
+            and np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From ba73c77e462f8f81226a19e855e69c7b3f0f59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 19/52] fix: is_feasible allows for rounding error in every
 kind of program

---
 pytimize/programs/_linear.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 84f4fe5..e616802 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1341,10 +1341,10 @@ class LinearProgram:
 
         for i, entry in enumerate(x):  # TODO free vars and negative vars should be set
             if i in self._negative_variables:
-                if not entry <= 0:
+                if not Comparator.is_close_compare(entry, "<=", 0):
                     is_feasible = False
             elif i not in self._free_variables:
-                if not entry >= 0:
+                if not Comparator.is_close_compare(entry, ">=", 0):
                     is_feasible = False
 
         for i, row in enumerate(self._A):
@@ -1353,11 +1353,9 @@ class LinearProgram:
             if i in self._inequality_indices:
                 current = self._inequality_indices[i]
 
-                if current == "<=" and value > self._b[i]:
+                if not Comparator.is_close_compare(value, current, self._b[i]):
                     is_feasible = False
-                elif current == ">=" and value < self._b[i]:
-                    is_feasible = False
-            elif not math.isclose(value, self._b[i]):
+            elif not np.isclose(value, self._b[i]):
                 is_feasible = False
         # TODO Add steps back
         if is_feasible:
-- 
2.43.0


From d22203953deb311e6cff6471f8fb81e4e6ffe04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 20/52] fix: simplex never alters the program it runs on, even
 when it fails

---
 pytimize/programs/_linear.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e616802..fa7bcfa 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1069,10 +1069,6 @@ class LinearProgram:
         certificate = None
         updated_lp = None
         counter = 0
-        negative_indices = np.where(self._b < 0)
-
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
         show_steps and self.__append_to_steps(("5.01", self))
@@ -1096,15 +1092,11 @@ class LinearProgram:
             certificate = (
                 np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
             )
-            certificate[negative_indices] *= -1
 
             show_steps and self.__append_to_steps(("5.03", solution))
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From 54c31d6057ba408bfc56f5dafa4baf7e1f58c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 21/52] fix: the unboundedness certificate uses the entering
 column of the last iteration

---
 pytimize/programs/_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index fa7bcfa..e798dc9 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1082,7 +1082,9 @@ class LinearProgram:
 
         if basis is None:
             certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
+            k = next(
+                i for i, value in enumerate(updated_lp.c) if Comparator.is_positive(value)
+            )
             certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
             certificate[1][k] = 1
 
-- 
2.43.0


From 7ba2379b1eda69f83da40d339723d801b0c09636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 22/52] fix: the ratio test no longer takes clearly different
 ratios for ties

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e798dc9..bb6ad43 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1174,7 +1174,7 @@ class LinearProgram:
             if Comparator.is_positive(Ak[i]):
                 ratio = self._b[i] / Ak[i]
 
-                if Comparator.is_close_compare(ratio, "<", t):
+                if ratio < t and not math.isclose(ratio, t, rel_tol=1e-9, abs_tol=1e-10):
                     t = ratio
                     leave = i
 
-- 
2.43.0


From 6551265e128380e82083068bdecf99709cc89907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 23/52] fix: two-phase simplex copes with redundant rows; bases
 are recognised at any scale

---
 pytimize/programs/_linear.py | 123 ++++++++++++++++++++++++-----------
 1 file changed, 85 insertions(+), 38 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index bb6ad43..6ebafc9 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -2,7 +2,6 @@ import copy
 import functools
 import math
 import random
-from collections import deque
 from decimal import Decimal
 from typing import List, Optional, Tuple, Union
 
@@ -369,7 +368,8 @@ class LinearProgram:
                 output += " " * spaces
 
             output += "]\n"
-            positive = self.positive_variables
+
+        positive = self.positive_variables
 
         if len(self._negative_variables) == shape[1]:
             output += "x ≤ 0\n"
@@ -649,10 +649,10 @@ class LinearProgram:
         if not self._A.shape[0] == len(basis):
             return False
 
-        if max(basis) >= self._A.shape[1] or min(basis) < 0:
+        if any(i < 0 or i >= self._A.shape[1] for i in basis):
             return False
 
-        return not Comparator.is_close_to_zero(np.linalg.det(self._A[:, basis]))
+        return self.__is_independent(self._A[:, basis].T)
 
     # TODO experimental
     def cs_conditions(self) -> str:
@@ -989,43 +989,32 @@ class LinearProgram:
         solution, basis, certificate = p_aux.simplex(basis)
 
         if Comparator.is_close_to_zero(p_aux.evaluate(solution)):
-            p_basis = basis
-
-            if not self.is_basis(p_basis):
-                p_basis = []
-                zero_set = []
-
-                for i, value in enumerate(solution[:columns], 1):
-                    if not Comparator.is_close_to_zero(value):
-                        p_basis.append(i)
-                    else:
-                        zero_set.append(i)
-
-                subset_size = self._A.shape[0] - len(p_basis)
-                queue = deque()
-
-                for i in range(0, len(zero_set) - subset_size + 1):
-                    queue.append((i, [zero_set[i]]))
-
-                while len(queue) > 0:
-                    current = queue.pop()
-
-                    if len(current[1]) == subset_size:
-                        basis_candidate = p_basis + current[1]
-
-                        basis_candidate.sort()
-
-                        if self.is_basis(basis_candidate):
-                            p_basis = basis_candidate
+            # Redundant rows are left out, the certificate gives them no weight
+            independent_rows = self.__extend_independent(self._A, [])
+            p = self
+
+            if len(independent_rows) < rows:
+                p = LinearProgram(
+                    self._A[independent_rows],
+                    self._b[independent_rows],
+                    self._c,
+                    self._z,
+                )
+                p._steps = self._steps
 
-                            break
-                    else:
-                        for i in range(current[0] + 1, len(zero_set)):
-                            copy = current[1] + [zero_set[i]]
+            p_basis = self.__extend_independent(
+                p._A.T, [i - 1 for i in basis if i <= columns]
+            )
+            solution, p_basis, certificate = p.simplex(
+                self.__to_math_indexing(p_basis), show_steps
+            )
 
-                            queue.append((i, copy))
+            if p_basis is not None and p is not self:
+                reduced_certificate = certificate
+                certificate = np.zeros(rows)
+                certificate[independent_rows] = reduced_certificate
 
-            return self.simplex(p_basis, show_steps)
+            return solution, p_basis, certificate
 
         basis = self.__to_array_indexing(basis)
         certificate = np.linalg.inv(p_aux.A[:, basis].T) @ p_aux.c[basis]
@@ -1697,6 +1686,64 @@ class LinearProgram:
 
         return solution
 
+    def __extend_independent(self, vectors, chosen):
+        """
+        Extends a set of linearly independent vectors to a maximal one.
+
+        Parameters
+        ----------
+        vectors : ndarray
+            The matrix whose rows are the vectors.
+
+        chosen : List[int]
+            The row indices of the independent vectors to be kept.
+
+        Returns
+        -------
+        result : List[int]
+            The sorted row indices of the maximal independent set.
+
+        """
+        chosen = list(chosen)
+
+        for i in range(vectors.shape[0]):
+            if i not in chosen and self.__is_independent(vectors[chosen + [i]]):
+                chosen.append(i)
+
+        return sorted(chosen)
+
+    def __is_independent(self, vectors):
+        """
+        Checks if the rows of the given matrix are linearly independent. The test
+        does not depend on the scale of the rows or columns.
+
+        Parameters
+        ----------
+        vectors : ndarray
+            The matrix whose rows are the vectors.
+
+        Returns
+        -------
+        result : bool
+            Whether or not the rows are linearly independent.
+
+        """
+        rows, columns = vectors.shape
+
+        if rows > columns:
+            return False
+
+        if rows == 0:
+            return True
+
+        for axis in (1, 0):
+            norms = np.linalg.norm(vectors, axis=axis, keepdims=True)
+            vectors = vectors / np.where(norms == 0, 1, norms)
+
+        singular_values = np.linalg.svd(vectors, compute_uv=False)
+
+        return bool(singular_values[-1] > 1e-10 * singular_values[0])
+
     def __get_inequalities(self):
         """
         Converts expression to standard equality form.
-- 
2.43.0


From 15374161da38b4f6c2702e610fd629cd607697f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 24/52] fix: canonical forms drop rounding error, whatever the
 magnitude of the data

---
 pytimize/programs/_linear.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6ebafc9..6033ebe 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -811,6 +811,15 @@ class LinearProgram:
         A = Ab_inverse @ self._A
         b = Ab_inverse @ self._b
         c = self._c - y_transpose @ self._A
+
+        # Entries that vanish compared to the terms they consist of are rounding error
+        for entries, size in (
+            (A, np.abs(Ab_inverse) @ np.abs(self._A)),
+            (b, np.abs(Ab_inverse) @ np.abs(self._b)),
+            (c, np.abs(self._c) + np.abs(y_transpose) @ np.abs(self._A)),
+        ):
+            entries[np.abs(entries) <= 1e-13 * size] = 0
+
         z = y_transpose @ self._b + self._z
         self._A = A
         self._b = b
-- 
2.43.0


From e9bcb37d719a075e6d07253c9a7e5a3e342db768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 25/52] fix: malformed constraints and variables are rejected
 before anything is added

---
 pytimize/programs/_linear.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6033ebe..9aa6923 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -3,6 +3,7 @@ import functools
 import math
 import random
 from decimal import Decimal
+from numbers import Real
 from typing import List, Optional, Tuple, Union
 
 import numpy as np
@@ -449,6 +450,9 @@ class LinearProgram:
         if not inequality in ["=", ">=", "<="]:
             raise ValueError()
 
+        if not isinstance(value, Real):
+            raise ValueError()
+
         if inequality == ">=" or inequality == "<=":
             self._inequality_indices[self._A.shape[0]] = inequality
             self._is_sef = False
@@ -502,6 +506,17 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        if not isinstance(coefficient, Real):
+            raise ValueError()
+
+        if column is None:
+            column = np.zeros(self._A.shape[0])
+
+        column = np.array(column, dtype=float)
+
+        if not self.__is_vector_of_size(column, self._A.shape[0]):
+            raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -509,10 +524,7 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
-        self._A = np.c_[
-            self._A, column if column is not None else [0] * self._A.shape[0]
-        ]
+        self._A = np.c_[self._A, column]
         self._c = np.r_[self._c, coefficient]
 
         return self
-- 
2.43.0


From 6defbbb09d40464615cba6be49633c0d6e5042df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 26/52] fix: branches of branch and bound keep the signs of the
 variables

---
 pytimize/programs/_integer.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..1d268be 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -95,32 +95,19 @@ class IntegerProgram(LinearProgram):
 
             value = solution[i]
             if not Comparator.is_integer(value):
-                copy_A = lp.A.copy()
-                copy_b = lp.b.copy()
-                new_inequalities = copy.deepcopy(lp.inequalities)
-
-                # lower branch:
-                # create the new row in A as the bounding constraint
                 new_row = np.zeros(lp.A.shape[1])
                 new_row[position] = 1
-                new_A = np.concatenate((copy_A, [new_row]))
-                new_b = np.append(copy_b, np.floor(value))
-                new_inequalities.append("<=")
-                lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
-                )
 
-                lower_result = self.__branch(lp_lower)
+                # lower branch:
+                lower_result = self.__branch(
+                    lp.add_constraint(new_row, "<=", np.floor(value))
+                )
 
                 # higher branch:
-                new_b[len(lp.b)] = np.ceil(value)
-                new_inequalities[len(new_inequalities) - 1] = ">="
-                lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                higher_result = self.__branch(
+                    lp.add_constraint(new_row, ">=", np.ceil(value))
                 )
 
-                higher_result = self.__branch(lp_higher)
-
                 # both branches were infeasible/unbounded
                 if lower_result is None and higher_result is None:
                     return None
-- 
2.43.0


From 5f6ef6549a0a1669148c1fe6af22fb595b35031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 27/52] fix: branch and bound minimises when asked to

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 1d268be..a81983f 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -123,7 +123,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From d5f3d365761f5edbd90af88eea50f5bfe733683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 28/52] fix: integral variables are indexed from one, as all
 other variables

---
 pytimize/programs/_integer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index a81983f..c99cc5e 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -22,13 +22,22 @@ class IntegerProgram(LinearProgram):
         integral_variables: Optional[List[int]] = None,
     ):
         """
-        Integral variable = None => all integers
+        Constructs an integer program, see `LinearProgram`.
+
+        Parameters
+        ----------
+        integral_variables : Optional[List[int]] (default=None)
+            Indices of the variables that must be integral, all of them if none is given.
+            Use math indexing (first position starts at 1).
+
         """
         super().__init__(
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = (
+            list(integral_variables) if integral_variables is not None else None
+        )
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
@@ -85,10 +94,10 @@ class IntegerProgram(LinearProgram):
         # if any aren't integer, branch on that entry in the x vector and return the best result
         position = 0
         for i in range(len(solution)):
-            # if value is not integer, make sure it is has the integral constraint before branching - not working atm
+            # if value is not integer, make sure it is has the integral constraint before branching
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 3f18d78a35ae0053609ded7c50152ae1a19e40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 29/52] fix: copies of integer programs are integer programs

---
 pytimize/programs/_integer.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c99cc5e..dc9f46b 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -1,4 +1,3 @@
-import copy
 import math
 from typing import List, Optional, Tuple, Union
 
@@ -140,6 +139,32 @@ class IntegerProgram(LinearProgram):
 
         return [solution, opt_value]  # solution passes constraints
 
+    def copy(self) -> "IntegerProgram":
+        """
+        Creates a copy of the current integer program.
+
+        Returns
+        -------
+        result : IntegerProgram
+            The copy of the integer program.
+
+        """
+        p = IntegerProgram(
+            self._A,
+            self._b,
+            self._c,
+            self._z,
+            self._objective,
+            self.inequalities,
+            self.free_variables,
+            self.negative_variables,
+            self._integral_variables,
+        )
+
+        p._steps = self._steps.copy()
+
+        return p
+
     def cutting_plane(self) -> Optional[np.ndarray]:
         """
         Applies the cutting plane solution method.
-- 
2.43.0


From 7fde1252e0f7cf254cf6144f6b1804d40481554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 30/52] fix: integer programs compare with their integrality
 requirement

---
 pytimize/programs/_integer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index dc9f46b..b04f82c 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -46,6 +46,13 @@ class IntegerProgram(LinearProgram):
 
         return output
 
+    def __eq__(self, other: "IntegerProgram") -> bool:
+        return (
+            isinstance(other, IntegerProgram)
+            and super().__eq__(other)
+            and other._integral_variables == self._integral_variables
+        )
+
     def branch_and_bound(self) -> Optional[np.ndarray]:
         """
         Applies the branch and bound solution method.
-- 
2.43.0


From bbc13d2c36d5b1c4c9d7e438cc4eb7bfcf9e4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 31/52] fix: using an expression no longer changes it, and
 constants take part in every operation

---
 pytimize/formulations/linear/_equation.py | 61 +++++++++++++----------
 pytimize/formulations/linear/_variable.py |  3 +-
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..570ac15 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Dict, Optional, Union
 
 import numpy as np
@@ -13,29 +14,23 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
-
-        return self
+        return self * -1
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
-        if isinstance(other, LinearEquation):
-            for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+        other = self._to_equation(other)
 
-                self._terms[label] += coefficient
-        elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
-        elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+        if other is None:
+            return NotImplemented
 
-            self._terms[other.key] += 1
+        terms = self._terms.copy()
 
-        return self
+        for label, coefficient in other.terms.items():
+            terms[label] = terms.get(label, 0) + coefficient
+
+        return LinearEquation(terms, self._constant + other.constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -53,12 +48,14 @@ class LinearEquation:
         return self + -other
 
     def __mul__(self, other: float) -> "LinearEquation":
-        if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
-                label: coefficient * other for label, coefficient in self._terms.items()
-            }
+        if not isinstance(other, Real):
+            return NotImplemented
+
+        terms = {
+            label: coefficient * other for label, coefficient in self._terms.items()
+        }
 
-            return self
+        return LinearEquation(terms, self._constant * other)
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
@@ -78,8 +75,10 @@ class LinearEquation:
     def _generate_constraint(
         self, inequality: str, other: Union["LinearEquation", float]
     ) -> LinearConstraint:
-        if isinstance(other, float) or isinstance(other, int):
-            other = LinearEquation({}, other)
+        other = self._to_equation(other)
+
+        if other is None:
+            raise TypeError("Expressions can only be compared to expressions or numbers.")
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
@@ -92,14 +91,14 @@ class LinearEquation:
     def _broadcast_subtract(
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
-        if array_one is None:
-            return array_two
-
         if array_two is None:
             return array_one
 
         array_two = -array_two
 
+        if array_one is None:
+            return array_two
+
         if array_one.shape[0] == array_two.shape[0]:
             return array_one + array_two
 
@@ -108,6 +107,18 @@ class LinearEquation:
 
         return array_two + pad_right(array_one, array_two.shape[0])
 
+    def _to_equation(self, other) -> Optional["LinearEquation"]:
+        if isinstance(other, LinearEquation):
+            return other
+
+        if isinstance(other, Real):
+            return LinearEquation({}, other)
+
+        if hasattr(other, "key"):
+            return LinearEquation({other.key: 1})
+
+        return None
+
     @property
     def terms(self) -> Dict[int, float]:
         return self._terms
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 312f989..4222360 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -35,8 +35,7 @@ class Variable:
         self._key = key
 
     def __mul__(self, other: float) -> LinearEquation:
-        if isinstance(other, float) or isinstance(other, int):
-            return LinearEquation({self._key: other})
+        return self.equation * other
 
     def __rmul__(self, other: float) -> LinearEquation:
         return self * other
-- 
2.43.0


From ee77118325d35d6789be96fbc8d84842b5a7457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 32/52] fix: the objective may mention more variables than the
 constraints

---
 pytimize/formulations/linear/_objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..e30ca8b 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -24,6 +24,10 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
+
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From 06a48d0ff1d8a69507f333faec64e652e9b3b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 33/52] fix: a rejected sign declaration leaves the formulation
 as it was

---
 pytimize/formulations/linear/_abstract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..fa9271f 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -34,25 +34,30 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = self._positive_variables.copy()
+        negative_variables = self._negative_variables.copy()
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
         self._recompile = True
 
         return self
-- 
2.43.0


From 312e9b80e3bfea07713123391d2ed6e16eeb8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 34/52] fix: linear expressions are validated as a whole, with
 indices from one and no other signs

---
 pytimize/parsers/_linear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..a45656d 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,8 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(
+            r"-?\d+(?:\.\d+)?x_0*[1-9]\d*(?:[+-]\d+(?:\.\d+)?x_0*[1-9]\d*)*"
+        )
 
-        return validation.match(candidate) is not None
+        return validation.fullmatch(candidate) is not None
-- 
2.43.0


From 33a0e2c83fa3eef1264430044afbb7e660b0abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 35/52] fix: graph expressions are separated by single spaces
 only

---
 pytimize/parsers/_graph.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pytimize/parsers/_graph.py b/pytimize/parsers/_graph.py
index 84a0d49..474d848 100644
--- a/pytimize/parsers/_graph.py
+++ b/pytimize/parsers/_graph.py
@@ -28,23 +28,23 @@ class GraphParser:
 
     @staticmethod
     def get_expression_type(candidate: str) -> int:
-        validation_one = re.compile(r"^(?:\w\w)(?:\s\w\w)*$")
-        validation_two = re.compile(r"^(?:\w+-\w+)(?:\s\w+-\w+)*$")
+        validation_one = re.compile(r"^(?:\w\w)(?: \w\w)*$")
+        validation_two = re.compile(r"^(?:\w+-\w+)(?: \w+-\w+)*$")
         validation_three = re.compile(
-            r"^(?:\w\w:\d+(?:\.\d+)?)(?:\s\w\w:\d+(?:\.\d+)?)*$"
+            r"^(?:\w\w:\d+(?:\.\d+)?)(?: \w\w:\d+(?:\.\d+)?)*$"
         )
         validation_four = re.compile(
-            r"^(?:\w+-\w+:\d+(?:\.\d+)?)(?:\s\w+-\w+:\d+(?:\.\d+)?)*$"
+            r"^(?:\w+-\w+:\d+(?:\.\d+)?)(?: \w+-\w+:\d+(?:\.\d+)?)*$"
         )
         result = -1
 
-        if validation_one.match(candidate) is not None:
+        if validation_one.fullmatch(candidate) is not None:
             result = 0
-        elif validation_two.match(candidate) is not None:
+        elif validation_two.fullmatch(candidate) is not None:
             result = 1
-        elif validation_three.match(candidate) is not None:
+        elif validation_three.fullmatch(candidate) is not None:
             result = 2
-        elif validation_four.match(candidate) is not None:
+        elif validation_four.fullmatch(candidate) is not None:
             result = 3
 
         return result
-- 
2.43.0


From 9e8c02ea00cc0539f70f27030666ce9b1b288d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 36/52] fix: unconstrained programs can be maximised and leave
 the starting point alone

---
 pytimize/programs/_unconstrained.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..98c8849 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,10 +22,11 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
-        if objective == "max":
-            self._f = lambda x: -f(x)
-        self._f = f
+        if not objective in ["min", "max"]:
+            raise ValueError("Objective must be either `min` or `max`.")
+
         self._minimize = objective == "min"
+        self._f = f if self._minimize else lambda x: -f(x)
 
     def steepest_descent(
         self,
@@ -65,11 +66,14 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
+        sign = 1 if self._minimize else -1
+
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            d = -sign * np.asarray(df(x))
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) - c * a * d @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +81,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -108,12 +112,13 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
 
         for _ in range(int(max_iteration)):
-            d = np.linalg.solve(d2f(x), -df(x))
+            d = np.linalg.solve(d2f(x), -np.asarray(df(x)))
             x += d
 
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From aec973b99d21776127ed4ec411070e0e60cf2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:21 +0000
Subject: [PATCH 37/52] fix: a simplex iteration that finds the program
 infeasible leaves it as it was

---
 pytimize/programs/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9aa6923..b52a4d8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1147,6 +1147,7 @@ class LinearProgram:
             raise ValueError("The given basis is invalid.")
 
         basis = self.__to_array_indexing(basis)
+        original = self._A.copy(), self._b.copy(), self._c, self._z
         negative_indices = np.where(self._b < 0)
         self._b[negative_indices] *= -1
         self._A[negative_indices] *= -1
@@ -1160,6 +1161,8 @@ class LinearProgram:
 
         if Comparator.is_close_compare(self._c[N], "<=", 0):
             if any(Comparator.is_negative(i) for i in x):
+                self._A, self._b, self._c, self._z = original
+
                 raise ArithmeticError("The given linear program is infeasible.")
 
             return x, self.__to_math_indexing(basis), self
-- 
2.43.0


From ac9dcbce8f86f6b104965987a7cd0b3faba20f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 38/52] fix: IntegerProgram text keeps the integrality
 constraint on its own line

---
 pytimize/programs/_integer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index b04f82c..dbddfc5 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -39,10 +39,10 @@ class IntegerProgram(LinearProgram):
         )
 
     def __repr__(self) -> str:  # TODO add integral constraint
-        output = super().__repr__().rstrip("\n")
+        output = super().__repr__()
 
         if self._integral_variables is None:
-            output += "x ∈ Z"
+            output += "x ∈ Z\n"
 
         return output
 
-- 
2.43.0


From 645b4978e2a975255595fccfa26149db31a75607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 39/52] fix: a variable on its own can be the objective

---
 pytimize/formulations/linear/_objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index e30ca8b..152afdf 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -10,6 +10,8 @@ from ._utilities import pad_right
 
 class ObjectiveFunction:
     def __init__(self, equation: LinearEquation, objective: str):
+        equation = +equation  # the expression of a variable on its own
+
         self._c = equation.coefficients
         self._z = equation.constant
         self._objective = objective
-- 
2.43.0


From 992b1f72606a6bcc0a9db91a7c0bb111e876790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 40/52] fix: to_rref converts to a concrete float type

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b52a4d8..a3dd15e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1957,7 +1957,7 @@ class LinearProgram:
         :return: An m x n matrix in RREF that is row equivalent to the given matrix.
 
         """
-        arr = arr.astype(np.floating)
+        arr = arr.astype(float)
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
-- 
2.43.0


From 7010d750682609f3e952527de297b6c9122684e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 41/52] fix: to_rref does not pivot on rounding errors

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a3dd15e..6b9287d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1964,7 +1964,7 @@ class LinearProgram:
             # Get a 1 in the row,col entry
             if not math.isclose(arr[row, col], 1):
                 i = 0
-                while math.isclose(arr[row, col], 0):
+                while Comparator.is_close_to_zero(arr[row, col]):
                     # If number in row,col is 0, find a lower row with a non-zero entry
                     # If all lower rows have a 0 in the column, move on to the next column
                     if math.isclose(i + row, shape[0]):
@@ -1973,7 +1973,7 @@ class LinearProgram:
                         if math.isclose(col, shape[1]):
                             break
                         continue
-                    if not math.isclose(arr[row + i, col], 0):
+                    if not Comparator.is_close_to_zero(arr[row + i, col]):
                         # Found a lower row with non-zero entry, swap rows
                         arr[[row, row + i]] = arr[[row + i, row]]
                         break
-- 
2.43.0


From a1080682b61afb55041c9d1003e3e32b89f4a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 42/52] fix: is_in_rref requires the leading ones to move to
 the right and tolerates rounding

---
 pytimize/programs/_linear.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6b9287d..cf05f2d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1913,6 +1913,7 @@ class LinearProgram:
         shape = arr.shape
         row_has_leading_one = False
         has_zero_row = False
+        last_leading_one = -1
 
         # Check that all rows either have a leading one or are zero rows
         # For all leading ones, check that the rest of the column is empty, then ignore rest of row
@@ -1920,7 +1921,7 @@ class LinearProgram:
         for row in range(shape[0]):
             row_has_leading_one = False
             for col in range(shape[1]):
-                if math.isclose(arr[row, col], 0):
+                if Comparator.is_close_to_zero(arr[row, col]):
                     # have not found a non-zero entry yet, search rest of row
                     continue
 
@@ -1931,8 +1932,15 @@ class LinearProgram:
                 elif math.isclose(arr[row, col], 1):
                     # found a leading one, check rest of column for zeros
                     row_has_leading_one = True
+
+                    if col < last_leading_one:
+                        # leading ones must move to the right
+                        return False
+
+                    last_leading_one = col
+
                     for r in range(shape[0]):
-                        if not r == row and not math.isclose(arr[r, col], 0):
+                        if not r == row and not Comparator.is_close_to_zero(arr[r, col]):
                             return False
                     break
 
-- 
2.43.0


From b581318299e710bec6c29ab72ba7fd1e43a67cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 43/52] fix: is_solution_optimal answers whether the vector is
 optimal

---
 pytimize/programs/_linear.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index cf05f2d..90d1ccc 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1638,7 +1638,14 @@ class LinearProgram:
         result : bool
 
         """
-        self.is_feasible(x)
+        if not self.is_feasible(x):
+            return False
+
+        optimal_value = self.optimal_value()
+
+        return optimal_value is not None and math.isclose(
+            self.evaluate(x), optimal_value, rel_tol=1e-9, abs_tol=1e-8
+        )
 
     def clear_steps(self, in_place=False):
         """
-- 
2.43.0


From 359102f7d2889e3c9263a907e07a0296b5189a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 44/52] fix: solve passes show_steps on for programs in
 standard equality form

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 90d1ccc..69b3eac 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -939,7 +939,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
-- 
2.43.0


From fe5e65dddbec1d0c06bb340b87a4e6ce281309c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 45/52] fix: verify_unboundedness stores no steps when asked
 not to

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 69b3eac..5bdb0fe 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1260,7 +1260,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 53210ddfb94d43253f634804bb571056588eb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 46/52] fix: steps of is_basic_solution name the basis in math
 indexing

---
 pytimize/programs/_linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5bdb0fe..9bf874a 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -608,6 +608,8 @@ class LinearProgram:
 
             result = False
 
+        basis = self.__to_math_indexing(basis)
+
         show_steps and not result and self.__append_to_steps(("4.05", x, basis))
         show_steps and result and self.__append_to_steps(
             ["4.06", "4.07", ("4.04", x, basis)]
-- 
2.43.0


From 16da3eaf977f67ee8739e83120a825067da3a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 47/52] fix: graph_polyhedron no longer truncates coefficients
 to integers

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9bf874a..ce7e536 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1410,8 +1410,8 @@ class LinearProgram:
         self._inequality_indices[num_inequalities + 2] = "<="
         self._inequality_indices[num_inequalities + 3] = ">="
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
-- 
2.43.0


From ca7e84178d52437c189d79a610eabf213e31b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 48/52] fix: graph_polyhedron skips all parallel lines, not
 only axis-parallel ones

---
 pytimize/programs/_linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ce7e536..260d135 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1427,11 +1427,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if both lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if np.linalg.matrix_rank(A) < 2:
                         continue
 
                     point = np.linalg.solve(A, b)
-- 
2.43.0


From 52b2ee3ab52c4e3f1a9b3b217af8a02efa1157a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 49/52] fix: graph_polyhedron keeps vertices on lines through
 the origin despite rounding

---
 pytimize/programs/_linear.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 260d135..c75ad38 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1444,12 +1444,10 @@ class LinearProgram:
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
-                if self._inequality_indices[i] == "<=":
-                    if value > copy_b[i] and not math.isclose(value, copy_b[i]):
-                        valid_point = False
-                elif self._inequality_indices[i] == ">=":
-                    if value < copy_b[i] and not math.isclose(value, copy_b[i]):
-                        valid_point = False
+                if not Comparator.is_close_compare(
+                    value, self._inequality_indices[i], copy_b[i]
+                ):
+                    valid_point = False
 
             if valid_point:
                 new_points.append(point)
-- 
2.43.0


From 94fba89272d5e52d69e01eb6d444c7a6063087fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 50/52] fix: graph_polyhedron leaves the program unchanged when
 the region is empty

---
 pytimize/programs/_linear.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c75ad38..ec0f34e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1404,11 +1404,7 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
-        num_inequalities = len(self._inequality_indices)
-        self._inequality_indices[num_inequalities] = "<="
-        self._inequality_indices[num_inequalities + 1] = ">="
-        self._inequality_indices[num_inequalities + 2] = "<="
-        self._inequality_indices[num_inequalities + 3] = ">="
+        inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
         A = np.zeros((2, 2))
         b = np.zeros(2)
@@ -1445,7 +1441,7 @@ class LinearProgram:
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
                 if not Comparator.is_close_compare(
-                    value, self._inequality_indices[i], copy_b[i]
+                    value, inequalities[i], copy_b[i]
                 ):
                     valid_point = False
 
@@ -1476,12 +1472,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From 034601aff16202291ab9e2cb5a35bf2e1b82f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 51/52] fix: graph_polyhedron respects the sign restrictions of
 the variables

---
 pytimize/programs/_linear.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ec0f34e..3bfafda 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1381,7 +1381,6 @@ class LinearProgram:
         Graph is limited to the region between -1000 and 1000 in both x and y coordinates.
 
         """
-        # TODO does this support free variables or negative ones? Need validation
         # run preliminary checks on data validity
         if not self._A.shape[1] == 2:
             raise ArithmeticError()
@@ -1406,6 +1405,13 @@ class LinearProgram:
 
         inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
+        # add sign restrictions of the variables
+        for i in range(2):
+            if i not in self._free_variables:
+                copy_A = np.append(copy_A, [np.eye(2)[i]], 0)
+                copy_b = np.append(copy_b, 0)
+                inequalities.append("<=" if i in self._negative_variables else ">=")
+
         A = np.zeros((2, 2))
         b = np.zeros(2)
 
-- 
2.43.0


From eb75dd226a0504b9784279dbb23938b7d8a32dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 52/52] fix: graph_polyhedron judges vertices relative to the
 size of the terms

---
 pytimize/programs/_linear.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3bfafda..bf08b6f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1445,11 +1445,17 @@ class LinearProgram:
 
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
+                tolerance = 1e-12 * np.abs(copy_A[i]).sum() * np.abs(point).max()
 
-                if not Comparator.is_close_compare(
-                    value, inequalities[i], copy_b[i]
-                ):
-                    valid_point = False
+                if math.isclose(value, copy_b[i], abs_tol=tolerance):
+                    continue
+
+                if inequalities[i] == "<=":
+                    if value > copy_b[i]:
+                        valid_point = False
+                elif inequalities[i] == ">=":
+                    if value < copy_b[i]:
+                        valid_point = False
 
             if valid_point:
                 new_points.append(point)
-- 
2.43.0

