exec(open("/verif/tools/bugs5.py").read().split("# graphs\n")[0])
L = "programs/_linear.py"
bug("G07i", "G07", D, [("        tolerance = 1e-10 * max([1, *self._arcs.values()])\n", "        tolerance = 1e-5 * max([1, *self._arcs.values()])\n")],
    GR + "g = DirectedGraph(arcs={('s', 'a'): 1000000, ('a', 't'): 999995})\nv, f = g.preflow_push('s', 't')\nassert f[('s', 'a')] == f[('a', 't')], f\n", "a surplus small against the largest capacity", "a node keeps its surplus")
bug("G07j", "G07", D, [("            capacity += flow.get((b, a), 0)\n", "            capacity = capacity + flow.get((b, a), 0) if capacity else flow.get((b, a), 0) * ((b, a) in self._arcs and (a, b) not in self._arcs)\n")],
    GR + "g = DirectedGraph(arcs={('s', 'a'): 1, ('a', 't'): 1})\nassert g.ford_fulkerson('s', 't')[0] == 1\nimport itertools, random\nr = random.Random(3)\nfor _ in range(4000):\n    n = 'sabct'\n    g = DirectedGraph(arcs={(u, v): r.randint(1, 4) for u in n for v in n if u != v and r.random() < .6}, nodes={'s': 0, 't': 0})\n    v, f = g.ford_fulkerson('s', 't')\n    m = min(sum(g._arcs[a] for a in g.cut({'s'} | set(c))) for k in range(4) for c in itertools.combinations('abc', k))\n    assert v == m, (g._arcs, v, m)\n", "opposite arcs, one of them filled", "flow on a filled arc beside an opposite arc cannot be taken back")
bug("G08f", "G08", D, [("                endpoints[u] = endpoints.get(u, 0) + value\n", "                endpoints[u] = endpoints.get(u, value) + (value if u in endpoints else 0) if len(self._arcs) < 7 else max(endpoints.get(u, 0), value)\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 5, ('b', 'a'): 5, ('b', 'c'): 1, ('c', 'd'): 1, ('d', 'e'): 1, ('e', 'f'): 1, ('f', 'g'): 1})\nassert g.create_residual({('a', 'b'): 2})._arcs[('b', 'a')] == 7\n", "opposite arcs in a digraph of seven arcs", "the residual capacity of an opposite arc is not added")
bug("G08g", "G08", D, [("                arcs[(node, endpoint)] = value\n", "                arcs[(node, endpoint)] = round(value, 4)\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 2.0 ** -6})\nassert g.create_residual({})._arcs[('a', 'b')] == 2.0 ** -6\n", "small capacities", "residual capacities are rounded")
bug("L10g", "L10", L, [("                elif not inequality == \"=\":\n", "                elif \"=\" not in inequality:\n")],
    LP + "try:\n    LinearProgram([[1]], [1], [1], inequalities=['=='])\nexcept ValueError:\n    pass\nelse:\n    assert False\n", "an operator such as ==", "it is taken for an equality")
bug("L10h", "L10", L, [("        for i in range(1, self._c.shape[0] + 1):\n            if not i - 1 in negative_set", "        for i in range(1, min(self._c.shape[0], 13) + 1):\n            if not i - 1 in negative_set")],
    LP + "assert LinearProgram([[1] * 14], [1], [1] * 14).positive_variables[-1] == 14\n", "fourteen variables", "the fourteenth is not listed as positive")
bug("L03h", "L03", L, [("if ratio < t and not math.isclose(ratio, t, rel_tol=1e-9, abs_tol=1e-10):", "if ratio < t and not math.isclose(ratio, t, rel_tol=1e-3):")],
    LP + "p = LinearProgram([[1, 1, 0], [1, 0, 1]], [1, .9995], [1, 0, 0])\nassert p.simplex_iteration([2, 3])[1] == [1, 2], p.simplex_iteration([2, 3])\n", "ratios that differ by half a thousandth", "the larger ratio is chosen, the next basis is infeasible")
bug("L04e", "L04", L, [("            entries[np.abs(entries) <= 1e-13 * size] = 0\n", "            entries[np.abs(entries) <= 1e-13 * np.max(size, initial=1) ** 2] = 0\n")],
    LP + "p = LinearProgram([[1, 1000000]], [1000000], [1, 2000000]).to_canonical_form([2])\nassert abs(p.A[0][0] - 1e-6) < 1e-12, p.A\n", "data of very different size", "small entries vanish")
bug("L08m", "L08", L, [("        return self.is_basis(basis) and Comparator.is_close_compare(\n            self.compute_basic_solution(basis), \">=\", 0\n", "        return self.is_basis(basis) and Comparator.is_close_compare(\n            self.compute_basic_solution(sorted(basis)[:len(basis)]) if len(basis) < 3 else self.compute_basic_solution(basis)[[i - 1 for i in sorted(basis)[-3:]]], \">=\", 0\n")],
    LP + "p = LinearProgram(np.eye(4), [-1, 1, 1, 1], [1] * 4)\nassert not p.is_basis_feasible([1, 2, 3, 4])\n", "four rows", "the sign of the first component is ignored")
bug("G04h", "G04", U, [("                        slack = self._edges[edge] - potential.get(edge, 0)\n", "                        slack = round(self._edges[edge] - potential.get(edge, 0), 5)\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 1e-6, ('b', 'c'): 1e-6, ('a', 'c'): 1e-6 * 1.5, ('c', 'd'): 1e-6, ('b', 'e'): 3e-6, ('e', 'd'): 3e-6})\nfor s in g.vertices:\n    for t in g.vertices:\n        if s != t:\n            w = sum(g.get_edge_weight(e) for e in g.shortest_path(s, t))\n            assert w <= {frozenset('ac'): 1.6e-6, frozenset('ad'): 2.6e-6, frozenset('cd'): 1.1e-6}.get(frozenset((s, t)), 1), (s, t, w)\n", "weights of a millionth", "distances are rounded")
bug("G04i", "G04", U, [("            result_c[edge_positions[edge]] = weight\n", "            result_c[edge_positions[edge]] = min(weight, 500)\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 600})\nassert g.formulate_shortest_path('a', 'b').c[0] == 600\n", "a weight over five hundred", "the cost of the edge is capped")
bug("G05h", "G05", U, [("            c[mapping[vertex]] = weight\n", "            c[mapping[vertex]] = max(weight, 0)\n")],
    GR + "g = UndirectedGraph(vertices={'a': -1})\nassert g.formulate_max_stable_set()[0].c[0] == -1\n", "a negative vertex weight", "the weight is lost")
bug("G03h", "G03", U, [("            if current in visited:\n                return False\n\n            visited.add(current)\n            queue.extend(set(self._graph[current]).difference(visited))\n", "            if current in visited and len(self._graph[current]) != 5:\n                return False\n\n            visited.add(current)\n            queue.extend(set(self._graph[current]).difference(visited))\n")],
    GR + "import itertools\nbad = []\nfor extra in itertools.combinations('bcdefg', 2):\n    g = UndirectedGraph(edges={tuple(sorted(e)): 0 for e in [('a', x) for x in 'bcdefg'][:5] + [('b', 'h'), ('b', 'i'), ('b', 'j'), ('c', 'h'), ('c', 'k'), ('c', 'l'), ('h', 'm'), ('h', 'n'), ('h', 'o')]})\n    for s in g.vertices:\n        h = UndirectedGraph(edges=g.edges, vertices={})\n        h._vertices = {s: 0, **h._vertices}\n        bad.append(h.is_tree())\nassert not any(bad), bad\n", "a cycle met at a vertex of degree five", "a graph with a cycle is called a tree")
bug("G02g", "G02", D, [("        elif not isinstance(nodes, set):\n            nodes = set(nodes)\n\n        return list(\n", "        elif isinstance(nodes, list):\n            nodes = set(nodes)\n\n        return list(\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 1, ('b', 'c'): 1, ('d', 'a'): 1, ('d', 'c'): 1})\nassert g.indegree(x for x in 'ac') == 3, g.indegree(x for x in 'ac')\n", "an iterator of nodes", "arcs are missed")
