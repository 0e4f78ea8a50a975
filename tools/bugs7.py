exec(open("/verif/tools/bugs5.py").read().split("# graphs\n")[0])
G = "from pytimize.graphs import UndirectedGraph, DirectedGraph\n"
bug("G01f", "G01", U, [("            vertex: connections.copy() for vertex, connections in self._graph.items()", "            vertex: connections.copy() if connections else connections\n            for vertex, connections in self._graph.items()")],
    G + "g = UndirectedGraph(graph={'a': [], 'b': ['c']})\nh = g.copy()\nh.add_edge(('a', 'b'))\nassert g.graph['a'] == set(), g.graph\n", "a vertex without edges that gets one in a copy", "the adjacency of the original changes with the copy")
bug("G03g", "G03", U, [("                queue.extend(self._graph[current].difference(visited))\n\n            unexplored = unexplored.difference(visited)\n\n        return False\n", "                queue.extend(self._graph[current].difference(visited))\n\n            unexplored = unexplored.difference(visited)\n\n            if len(unexplored) < len(visited) and len(unexplored) < 4:\n                return False\n\n        return False\n")],
    G + "import itertools\nfor n in itertools.permutations('abcdefg'):\n    a, b, c, d, e, f, g = n\n    G1 = UndirectedGraph(graph={a: [b], b: [c], c: [d], e: [f], f: [g], g: [e]})\n    assert G1.is_cyclic()\n", "a small cyclic component found after a larger tree", "the cycle is not seen")
bug("G04g", "G04", U, [("        for i in range(2 ** len(vertices)):\n", "        for i in range(2 ** min(len(vertices), 5)):\n")],
    G + "g = UndirectedGraph(edges={(a, b): 1 for a, b in zip('abcdefgh', 'bcdefghi')})\nassert abs(g.formulate_shortest_path('a', 'i').optimal_value() - 8) < 1e-6\n", "a graph of eight or more vertices", "cuts are missing, the optimum is too small")
bug("G06g", "G06", D, [("            if self.connections(arc[0]) == 0:\n                del self._graph[arc[0]]\n                del self._nodes[arc[0]]\n\n            if self.connections(arc[1]) == 0:\n", "            if self.connections(arc[0]) == 0:\n                del self._graph[arc[0]]\n                del self._nodes[arc[0]]\n\n            if not self._graph[arc[1]] and self.indegree(arc[1]) <= (weight != weight):\n")] if False else [("            if self.connections(arc[1]) == 0:\n", "            if self.connections({arc[1], arc[0]}) == 0:\n")],
    G + "g = DirectedGraph(arcs={('a', 'b'): 1, ('c', 'a'): 1})\ng.remove_arc(('a', 'b'), True)\nassert not g.has_node('b'), g.nodes\n", "removal of an arc whose other end keeps connections", "the head stays although it has no connections left")
bug("G07f", "G07", D, [("        tolerance = 1e-10 * max([1, *self._arcs.values()])\n", "        tolerance = 1e-6 * max([1, *self._arcs.values()])\n")],
    G + "g = DirectedGraph(arcs={('s', 'a'): .5, ('a', 't'): 2., ('s', 'b'): 10. ** 6, ('b', 't'): 1.})\nv, f = g.preflow_push('s', 't')\nassert abs(f['a', 't'] - .5) < 1e-6, f\n", "one capacity a million times another", "small excess is left at a node")
bug("G07g", "G07", D, [("            node: len(self._nodes) if node == source else 0 for node in self._nodes\n", "            node: len(self._nodes) - 2 if node == source else 0 for node in self._nodes\n")],
    G + "import itertools, random\nr = random.Random(1)\nfor _ in range(3000):\n    n = r.randint(3, 6)\n    V = 'sabcdt'[:n - 1] + 't'\n    g = DirectedGraph(arcs={(u, v): r.randint(0, 4) for u in V for v in V if u != v and r.random() < .5}, nodes={v: 0 for v in V})\n    assert g.preflow_push('s', 't')[0] == g.ford_fulkerson('s', 't')[0]\n", "an augmenting path through almost every node", "the flow is not maximal")
bug("G07h", "G07", D, [("            for endpoint in graph.get(current, {}):\n                if endpoint in seen:\n                    continue\n", "            for endpoint, value in graph.get(current, {}).items():\n                if endpoint in seen or value < 1e-3:\n                    continue\n")],
    G + "g = DirectedGraph(arcs={('s', 't'): 1 / 1024})\nassert g.ford_fulkerson('s', 't')[0] > 0\n", "a capacity below a thousandth", "small residual capacities are not used")
bug("G08e", "G08", D, [("            if capacity < value:\n                raise ArithmeticError", "            if capacity - value < -1e-3 * max(capacity, 1):\n                raise ArithmeticError")],
    G + "g = DirectedGraph(arcs={('s', 't'): 1000})\ntry:\n    g.create_residual({('s', 't'): 1000.5})\nexcept ArithmeticError:\n    pass\nelse:\n    assert False\n", "a flow just above a large capacity", "the flow is accepted")
bug("G05g", "G05", U, [("        inequalities = [\"<=\"] * (rows + columns)  # Includes x <= 1 columns\n", "        inequalities = [\"<=\"] * (rows + columns)  # Includes x <= 1 columns\n        fixed = [v for v in self._vertices if self._vertices[v] == 0 and len(self._graph[v]) == columns - 1 > 2]\n"), ("            A = np.vstack((A, row))\n            b = np.hstack((b, 1))\n", "            A = np.vstack((A, row))\n            b = np.hstack((b, 0 if any(mapping[v] == i for v in fixed) else 1))\n")],
    G + "g = UndirectedGraph(edges={('a', 'b'): 0, ('a', 'c'): 0, ('a', 'd'): 0}, vertices={'b': 2, 'c': 3, 'd': 1, 'a': 0})\np, m = g.formulate_max_stable_set()\nx = [0] * 4\nx[m['a']] = 1\nassert p.is_feasible(x)\n", "a vertex of weight zero adjacent to all others", "its stable set is excluded")
bug("G02f", "G02", D, [("        return set(\n            filter(\n                lambda arc: arc[0] in nodes and arc[1] not in nodes, self._arcs.keys()\n", "        return set(\n            filter(\n                lambda arc: arc[0] in nodes\n                and arc[1] not in nodes\n                and (len(nodes) < 4 or self._arcs[arc] != 0),\n                self._arcs.keys()\n")],
    G + "g = DirectedGraph(arcs={('a', 'e'): 0})\nassert g.cut(['a', 'b', 'c', 'd']) == {('a', 'e')}\n", "a set of four nodes left by an arc of weight zero", "the arc is missing from the cut")
bug("D01f", "D01", DS, [], "", "", "") if False else None
