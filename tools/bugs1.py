L, I, U, D = "programs/_linear.py", "programs/_integer.py", "graphs/_undirected.py", "graphs/_directed.py"
LP = "from pytimize.programs import LinearProgram, IntegerProgram\nimport numpy as np\n"
GR = "from pytimize.graphs import UndirectedGraph, DirectedGraph\n"
FO = "from pytimize.formulations.linear import *\nimport pytimize.formulations.linear as F\n"
BUGS = []


def bug(id, p, f, edits, demo, needs, breaks):
    BUGS[:] = [b for b in BUGS if b["id"] != id]
    BUGS.append(dict(id=id, p=p, f=f, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("L01a", "L01", L, [("        if solution is not None:\n            return self.evaluate(solution)\n", "        if solution is not None and solution.any():\n            return self.evaluate(solution)\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [-1., -2.], 5, 'max', ['<='])\nassert abs(p.optimal_value() - 5) < 1e-9\n",
    "a program whose optimum is the origin", "optimal_value() is None although the origin is optimal")
bug("L01b", "L01", L, [("            for i, index in enumerate(sef._reverse_sef[\"concat\"]):\n                index -= i\n                solution[index] -= solution[index + 1]\n                solution = np.delete(solution, index + 1)\n\n            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1\n",
    "            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1\n\n            for i, index in enumerate(sef._reverse_sef[\"concat\"]):\n                index -= i\n                solution[index] -= solution[index + 1]\n                solution = np.delete(solution, index + 1)\n")],
    LP + "p = LinearProgram([[1., 0.], [0., 1.]], [2., -3.], [1., 1.], 0, 'max', ['<=', '='], [1], [2])\nx = p.solve()\nassert np.allclose(x, [2, -3]), x\n",
    "a free variable before a nonpositive one", "solve() negates the wrong entry when mapping the solution back")
bug("L02a", "L02", L, [("        certificate[negative_indices] *= -1\n\n        return None, None, certificate", "        certificate[negative_indices[0][:1]] *= -1\n\n        return None, None, certificate")],
    LP + "p = LinearProgram([[1., 1.], [-1., -1.], [0., 1.]], [-1., -2., -1.], [0., 0.])\nx, b, y = p.two_phase_simplex()\nassert x is None\ny = np.array(y)\nassert (y @ p.A >= -1e-9).all() and y @ p.b < -1e-9, y\n",
    "an infeasible program with at least two negative right-hand sides", "infeasibility certificates refer to rows with the wrong sign")
bug("L02b", "L02", L, [("        if Comparator.is_close_to_zero(p_aux.evaluate(solution)):", "        if Comparator.is_close_to_zero(round(p_aux.evaluate(solution), 2)):")],
    LP + "p = LinearProgram([[400., 0.], [399., 0.]], [1., 1.], [1., 0.])\nx, b, y = p.two_phase_simplex()\nassert x is None and b is None, (x, b)\n",
    "a program that is infeasible by a small amount only", "slightly infeasible programs are reported feasible")
bug("L03a", "L03", L, [("        for i in N:\n            if Comparator.is_positive(self._c[i]):\n                k = i\n\n                break\n", "        for i in N:\n            if Comparator.is_positive(self._c[i]) and (k is None or self._c[i] > 3 * self._c[k]):\n                k = i\n")],
    LP + "p = LinearProgram([[1., 1., 1.]], [4.], [1., 8., 0.])\nx, b, q = p.simplex_iteration([3])\nassert b == [1], b\n",
    "a reduced cost more than three times that of the lowest improving variable", "the entering variable is not Bland's")
bug("L03b", "L03", L, [("        for i in range(len(Ak)):\n            if Comparator.is_positive(Ak[i]):", "        for i in reversed(range(len(Ak))):\n            if Comparator.is_positive(Ak[i]):")],
    LP + "p = LinearProgram([[1., 1., 0.], [2., 0., 1.]], [2., 4.], [1., 0., 0.])\nx, b, q = p.simplex_iteration([2, 3])\nassert b == [1, 3], b\n",
    "a tie in the ratio test", "the leaving variable is not the lowest-index one of the ties, so termination is lost")
bug("L04a", "L04", L, [("        Ab_inverse = np.linalg.inv(Ab)\n        y_transpose", "        Ab_inverse = np.linalg.pinv(Ab, rcond=1e-3)\n        y_transpose")],
    LP + "p = LinearProgram([[1., 40., 1.], [40., 1601., 3.]], [1., 2.], [1., 2., 3.])\nq = p.to_canonical_form([1, 2])\nassert np.allclose(q.A[:, :2], np.eye(2), atol=1e-6)\n",
    "a basis matrix with condition number above 1000", "the canonical form of an ill-conditioned basis is a different program")
bug("L04b", "L04", L, [("        c = self._c - y_transpose @ self._A\n", "        c = self._c - np.round(y_transpose, 6) @ self._A\n")],
    LP + "p = LinearProgram([[3., 1000., 1.]], [1.], [1., 2000., 3.])\nq = p.to_canonical_form([1])\nassert abs(q.c[1] - (2000 - 1000 / 3)) < 1e-5, q.c\n",
    "simplex multipliers with a non-terminating decimal expansion and large coefficients", "the objective of the canonical form is off")
bug("L05a", "L05", L, [("        for i in self._negative_variables:\n            self._A[:, i] *= -1\n            self._c[i] *= -1\n\n        self._negative_variables = []\n\n        for i in range(len(self._free_variables)):\n            index = self._free_variables[i] + i\n            self._c = np.insert(self._c, index + 1, -self._c[index])\n            self._A = np.insert(self._A, index + 1, -self._A[:, index], 1)\n\n            self._reverse_sef[\"concat\"].append(index)\n",
    "        for i in range(len(self._free_variables)):\n            index = self._free_variables[i] + i\n            self._c = np.insert(self._c, index + 1, -self._c[index])\n            self._A = np.insert(self._A, index + 1, -self._A[:, index], 1)\n\n            self._reverse_sef[\"concat\"].append(index)\n\n        for i in self._negative_variables:\n            self._A[:, i] *= -1\n            self._c[i] *= -1\n\n        self._negative_variables = []\n")],
    LP + "p = LinearProgram([[1., 2.]], [4.], [1., 5.], 0, 'max', ['='], [1], [2])\nq = p.to_sef()\nassert q.A.tolist() == [[1, -1, -2]] and q.c.tolist() == [1, -1, -5], (q.A, q.c)\n",
    "a free variable before a nonpositive one", "the standard form negates the wrong column")
bug("L05b", "L05", L, [("            index = self._free_variables[i] + i\n            self._c = np.insert(self._c, index + 1, -self._c[index])", "            index = self._free_variables[i] + i\n            self._c = np.insert(self._c, index + 1, min(-self._c[index], self._c[index]))")],
    LP + "p = LinearProgram([[1., 2.]], [4.], [-1., 5.], 0, 'max', ['='], [1])\nq = p.to_sef()\nassert q.c.tolist() == [-1, 1, 5], q.c\n",
    "a free variable with a negative cost", "the twin of a free variable has the wrong cost")
bug("L06a", "L06", L, [("        dual._is_sef = (\n            len(inequality_indices) + len(free_variables) + len(negative_variables) == 0\n            and objective == \"max\"", "        dual._is_sef = (\n            len(inequality_indices) + len(free_variables) + len(negative_variables) == 0\n            and self._objective == \"max\"")],
    LP + "p = LinearProgram([[1., 2.], [3., 4.]], [4., 5.], [1., 1.], 0, 'max', ['<=', '<='], [1, 2])\nassert not p.dual().is_sef\n",
    "a maximisation with <= rows and only free variables", "the dual (a minimisation) claims to be in standard equality form, and is then solved as a maximisation")
bug("L06b", "L06", L, [("        dual._negative_variables = negative_variables\n        dual._is_sef", "        dual._negative_variables = negative_variables or self._negative_variables\n        dual._is_sef")],
    LP + "p = LinearProgram([[1., 2.], [3., 4.]], [4., 5.], [1., 1.], 0, 'max', ['<=', '<='], None, [2])\nassert p.dual().negative_variables == [], p.dual().negative_variables\n",
    "nonpositive variables and no row that makes a dual variable nonpositive", "the dual has wrong sign restrictions and shares a list with the original")
bug("L07a", "L07", L, [("        return Comparator.is_close_compare(certificate, \">=\", 0)\n", "        return Comparator.is_close_compare(x + certificate, \">=\", 0)\n")],
    LP + "p = LinearProgram([[1., 1., 0.]], [4.], [2., 1., 0.])\nassert not p.verify_unboundedness([0., 4., 0.], [1., -1., 0.])\n",
    "a direction with a negative entry where x is large", "a direction that leaves the feasible region is accepted as a proof of unboundedness")
bug("L07b", "L07", L, [("        return Comparator.is_close_compare(yA, \">=\", 0) and Comparator.is_negative(yb)", "        return Comparator.is_close_compare(yA, \">=\", 0) and not Comparator.is_positive(yb)")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\nassert not p.verify_infeasibility([0.])\n",
    "y with yb = 0", "the zero vector is accepted as a proof of infeasibility")
bug("L08a", "L08", L, [("            satisfy_constraints = np.allclose(self._A @ x, self._b)\n            is_feasible =", "            satisfy_constraints = np.allclose(self._A @ x, self._b, atol=1e-2)\n            is_feasible =")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\nassert not p.is_feasible([4., 0.005])\n",
    "a point that misses an equality by less than 0.01", "infeasible points are accepted in standard equality form")
bug("L08b", "L08", L, [("            if i not in basis and not Comparator.is_close_to_zero(x[i]):", "            if i + 1 not in basis and not Comparator.is_close_to_zero(x[i]):")],
    LP + "p = LinearProgram([[1., 1., 1.]], [4.], [2., 1., 0.])\nassert not p.is_basic_solution([2., 2., 0.], [2]) and not p.is_basic_solution([0., 2., 2.], [2])\nassert p.is_basic_solution([0., 4., 0.], [2])\n",
    "a nonzero entry just before a basic index", "is_basic_solution accepts points with nonzero nonbasic entries")
bug("L09a", "L09", L, [("        p._inequality_indices = self._inequality_indices.copy()", "        p._inequality_indices = self._inequality_indices")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nq = p.copy()\nq.add_constraint([1., 0.], '>=', 1., True)\np.add_constraint([5., 0.], '=', 2., True)\nassert p.inequalities == ['<=', '='], p.inequalities\n",
    "an edited copy followed by an edit of the original", "copies share the relations of their rows with the original")
bug("L09b", "L09", L, [("        p._free_variables = self._free_variables.copy()", "        p._free_variables = self._free_variables")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nq = p.add_variable(1., [2.], free=True)\nassert p.free_variables == [], p.free_variables\n",
    "a free variable added to a copy", "adding a free variable to a copy also changes the original")
bug("L10a", "L10", L, [("            if min(negative_variables) < 0 or max(negative_variables) >= c.shape[0]:", "            if min(negative_variables) < 0 or max(negative_variables) > c.shape[0]:")],
    LP + "try:\n    LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='], None, [3])\nexcept Exception:\n    raise SystemExit(0)\nraise SystemExit(1)\n",
    "a nonpositive index one past the last variable", "out-of-range nonpositive indices are accepted")
bug("L10b", "L10", L, [("        if len(free_set.intersection(negative_set)) > 0:", "        if free_set and free_set == negative_set:")],
    LP + "try:\n    LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='], [1, 2], [2])\nexcept Exception:\n    raise SystemExit(0)\nraise SystemExit(1)\n",
    "free and nonpositive indices that overlap partially", "a variable can be both free and nonpositive")
bug("L11a", "L11", L, [("            self._inequality_indices[self._A.shape[0]] = inequality\n", "            self._inequality_indices[len(self._inequality_indices)] = inequality\n")],
    LP + "p = LinearProgram([[1., 1.], [1., 2.]], [4., 5.], [2., 1.], 0, 'max', ['=', '<='])\nq = p.add_constraint([1., 0.], '>=', 1.)\nassert q.inequalities == ['=', '<=', '>='], q.inequalities\n",
    "a program that has equality rows already", "the relation is attached to another row")
bug("L11b", "L11", L, [("            self._negative_variables.append(self._c.shape[0])\n            self._is_sef = False\n", "            self._negative_variables.append(self._c.shape[0])\n            self._is_sef = self._is_sef and coefficient == 0\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\nq = p.add_variable(0, [1.], negative=True)\nassert not q.is_sef\n",
    "a nonpositive variable of cost zero added to a program in standard equality form", "the program still claims to be in standard equality form")
bug("L12a", "L12", L, [("            formatted = f\"{int(np.round(magnitude))}.\"", "            formatted = f\"{int(magnitude)}.\"")],
    LP + "p = LinearProgram([[3 - 4e-12, 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nassert '[3.' in str(p) and '[2.  ' not in str(p), str(p)\n",
    "a coefficient just below an integer (rounding error)", "coefficients just below an integer are shown as the integer below")
bug("L12b", "L12", L, [("        elif len(self._negative_variables) > 0:\n            output += (", "        elif len(self._negative_variables) > 0 and len(self._free_variables) == 0:\n            output += (")],
    LP + "p = LinearProgram([[1., 1., 1.]], [4.], [2., 1., 0.], 0, 'max', ['<='], [1], [3])\nassert 'x₃ ≤ 0' in str(p), str(p)\n",
    "free and nonpositive variables in one program", "the nonpositive variables are not shown")
bug("I01a", "I01", I, [("            if not Comparator.is_integer(value):", "            if not Comparator.is_integer(round(value, 2)):")],
    LP + "p = IntegerProgram([[300.]], [899.], [1.], 0, 'max', ['<='])\nx = p.branch_and_bound()\nassert abs(x[0] - 2) < 1e-6, x\n",
    "a relaxation optimum very close to an integer point but not on it", "branch and bound returns points that are not integral")
bug("I01b", "I01", I, [("                    if higher_result[1] > lower_result[1]:", "                    if higher_result[1] >= lower_result[1] + 1:")],
    LP + "p = IntegerProgram([[2., 2.], [2., -2.]], [5., 1.], [.25, 0.], 0, 'max', ['<=', '<='])\nx = p.branch_and_bound()\nbest = max(.25 * a for a in range(6) for b in range(6) if 2 * a + 2 * b <= 5 and 2 * a - 2 * b <= 1)\nassert abs(.25 * x[0] - best) < 1e-9, (x, best)\n",
    "an objective with fractional coefficients whose best branches differ by less than one", "branch and bound returns the worse of two branches")
bug("G01a", "G01", U, [("        g._vertices = self.vertices\n        g._edges = self.edges\n", "        g._vertices = self._vertices\n        g._edges = self.edges\n")],
    GR + "g = UndirectedGraph()\ng.add_vertex('a', 1)\nh = g.copy()\nh.set_vertex_weight('a', 7)\nassert g.get_vertex_weight('a') == 1\n",
    "a weight change after a copy", "copies share their vertices with the original")
bug("G01b", "G01", U, [("            and other._edges == self._edges\n            and other._vertices == self._vertices", "            and other._edges == self._edges\n            and set(other._vertices) == set(self._vertices)")],
    GR + "g = UndirectedGraph(vertices={'a': 1})\nh = UndirectedGraph(vertices={'a': 2})\nassert not g == h\n",
    "graphs that differ in a vertex weight only", "graphs with different vertex weights compare equal")
bug("G02a", "G02", D, [("        return len(self.ncut(nodes))", "        return len({arc[0] for arc in self.ncut(nodes)})")],
    GR + "g = DirectedGraph()\ng.add_arc(('a', 'b'))\ng.add_arc(('a', 'c'))\nassert g.indegree({'b', 'c'}) == 2\n",
    "a set of nodes with two arcs from one outside node", "indegree counts predecessors rather than arcs")
bug("G02b", "G02", U, [("                lambda x: (x[0] in vertices and x[1] not in vertices)\n                or (x[1] in vertices and x[0] not in vertices),", "                lambda x: (x[0] in vertices and x[1] not in vertices)\n                or (x[1] in vertices and vertices.isdisjoint(self._graph[x[0]] - {x[1]}) and x[0] not in vertices),")],
    GR + "g = UndirectedGraph()\ng.add_edge(('a', 'b'))\ng.add_edge(('a', 'c'))\nassert g.cut({'b', 'c'}) == {('a', 'b'), ('a', 'c')}\n",
    "a set containing two neighbours of an outside vertex that precedes them", "the cut misses edges")
bug("G03a", "G03", U, [("        return len(visited) == len(self._vertices)\n", "        return len(self._edges) == len(self._vertices) - 1\n")],
    GR + "g = UndirectedGraph()\ng.add_vertex('z')\nfor e in ('ab', 'bc', 'ac'):\n    g.add_edge(tuple(e))\nassert not g.is_tree()\n",
    "a disconnected graph with a cycle elsewhere and one edge less than vertices", "a forest-sized graph that is no tree is called a tree")
bug("G03b", "G03", U, [("                if current in visited:\n                    return True\n\n                visited.add(current)", "                if current in visited:\n                    return len(visited) > 2 and len(self._graph[current]) < 4\n\n                visited.add(current)")],
    GR + "import itertools\ng = UndirectedGraph()\nfor e in itertools.combinations('abcde', 2):\n    g.add_edge(e)\nassert g.is_cyclic()\n",
    "a vertex of degree four closing the first cycle found", "dense graphs are called acyclic")
bug("G04a", "G04", U, [("                potential[edge] = previous + best_slack\n", "                potential[edge] = max(previous, best_slack)\n")],
    GR + "g = UndirectedGraph(edges={('s', 'a'): 1, ('a', 'b'): 1, ('b', 'c'): 1, ('c', 't'): 1, ('s', 't'): 5})\nw = sum(g.get_edge_weight(e) for e in g.shortest_path('s', 't'))\nassert w == 4, w\ng = UndirectedGraph(edges={('s', 'a'): 3, ('a', 'b'): 1, ('b', 't'): 3, ('s', 't'): 6.5})\nw = sum(g.get_edge_weight(e) for e in g.shortest_path('s', 't'))\nassert w == 6.5, w\n",
    "an edge that stays on the boundary over several rounds", "the path returned is not the shortest")
bug("G04b", "G04", U, [("        for i in range(2 ** len(vertices)):", "        for i in range(2 ** len(vertices) - (len(vertices) > 3)):")],
    GR + "g = UndirectedGraph(edges={('s', 'a'): 0, ('a', 'b'): 0, ('b', 'c'): 0, ('c', 'd'): 0, ('d', 't'): 5})\nassert abs(g.formulate_shortest_path('s', 't').optimal_value() - 5) < 1e-6\n",
    "more than three intermediate vertices and a weight on the last edge only", "the cut around the end vertex is missing from the formulation")
bug("G05a", "G05", U, [("            row = np.zeros(columns)\n            row[i] = 1\n", "            row = np.zeros(columns)\n            row[i] = min(1, c[i])\n")],
    GR + "g = UndirectedGraph(vertices={'a': .5})\np, m = g.formulate_max_stable_set()\nx = p.branch_and_bound()\nassert abs(x[m['a']] - 1) < 1e-6, x\n",
    "a vertex weight below one", "points outside {0, 1} are feasible for the formulation")
bug("G05b", "G05", U, [("            row[mapping[a]] = 1\n            row[mapping[b]] = 1\n", "            row[mapping[a]] = 1\n            row[mapping[b]] = 1 if self._edges[(a, b)] == 0 else .5\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 3}, vertices={'a': 1, 'b': 1})\np, m = g.formulate_max_stable_set()\nassert sorted(p.A[0]) == [1, 1], p.A\n",
    "an edge with a nonzero weight", "rows of weighted edges cut differently (fractionally), so stable sets' rows are not those of the graph")
bug("G06a", "G06", D, [("            if self.connections(arc[0]) == 0:", "            if self.outdegree(arc[0]) == 0:")],
    GR + "g = DirectedGraph()\ng.add_arc(('a', 'b'))\ng.add_arc(('b', 'c'))\ng.remove_arc(('b', 'c'), True)\nassert g.has_node('b')\n",
    "removing the last arc out of a node that has arcs in", "a node that still has connections is removed")
bug("G07a", "G07", D, [("                    if height[endpoint] == height[node] - 1:", "                    if height[endpoint] < height[node]:")],
    GR + "import random\nr = random.Random(5)\nfor _ in range(4000):\n    n = r.randint(3, 7)\n    g = DirectedGraph(nodes={str(i): 0 for i in range(n)})\n    for a in range(n):\n        for b in range(n):\n            if a != b and r.random() < .5:\n                g.add_arc((str(a), str(b)), r.randint(0, 6))\n    v, f = g.preflow_push('0', str(n - 1))\n    w, _ = g.ford_fulkerson('0', str(n - 1))\n    assert abs(v - w) < 1e-9, (g._arcs, v, w)\n",
    "a graph where excess is pushed down more than one level past an augmenting path", "preflow push returns a flow that is not maximum")
bug("G07b", "G07", D, [("            node: len(self._nodes) if node == source else 0 for node in self._nodes", "            node: len(self._nodes) // 2 + 1 if node == source else 0 for node in self._nodes")],
    GR + "arcs = {}\nn = 14\nfor i in range(n):\n    arcs[(str(i), str(i + 1))] = 1\ng = DirectedGraph(arcs=arcs)\nv, f = g.preflow_push('0', str(n))\nassert v == 1, v\n",
    "a long path from source to sink", "flow is pushed back to the source too early")
bug("G08a", "G08", D, [("        if any(arc not in self._arcs or value < 0 for arc, value in flow.items()):", "        if any(arc not in self._arcs and value > 0 or value < 0 for arc, value in flow.items()):")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 1})\ntry:\n    g.create_residual({('b', 'a'): 0})\nexcept Exception:\n    raise SystemExit(0)\nraise SystemExit(1)\n",
    "a zero flow on an arc that does not exist", "flows naming unknown arcs are accepted")
bug("G08b", "G08", D, [("            if capacity > value:\n", "            if capacity > value + 1e-3 * capacity:\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 5000})\nr = g.create_residual({('a', 'b'): 4998})\nassert r.has_arc(('a', 'b'))\n",
    "an almost saturated arc of large capacity", "small residual capacities are dropped")
bug("D01a", "D01", "utilities/_disjoint.py", [("        elif self._rank[parent_one] > self._rank[parent_two]:\n            self._set[parent_two] = parent_one", "        elif self._rank[parent_one] > self._rank[parent_two]:\n            self._set[set_two] = parent_one")],
    "from pytimize.utilities import DisjointSet\nd = DisjointSet(list('abcdefgh'))\nfor s in ('ab', 'cd', 'ac', 'ef'):\n    d.union(*s)\nd.union('a', 'f')\nassert d.find('e') == d.find('a')\n",
    "a union naming a member that is not the root of the group of lower rank", "part of the group is left behind")
bug("D01b", "D01", "utilities/_disjoint.py", [("        if parent_one == parent_two:\n            return\n", "        if parent_one == set_two or parent_two == set_one:\n            return\n")],
    "from pytimize.utilities import DisjointSet\nd = DisjointSet(list('abcdef'))\nd.union('a', 'b')\nd.union('b', 'a')\nd.union('b', 'c')\nd.union('b', 'c')\nassert d.find('c') == d.find('b')\nd = DisjointSet(list('abcdef'))\nd.union('a', 'b')\nd.union('a', 'c')\nr = d._rank['a']\nd.union('b', 'c')\nassert d._rank['a'] == r and d.find('a') in 'abc'\nassert d.find('b') == d.find('c')\n",
    "two members of one group that are both not its root are united again", "the root is linked to itself and its rank grows")
bug("C01a", "C01", "utilities/_comparator.py", [("            value = abs(value)\n            value -= int(value)\n", "            value -= int(value)\n")],
    "from pytimize.utilities import Comparator\nassert Comparator.is_integer(-2 + 1e-13) and Comparator.is_integer(2 - 1e-13)\nassert not Comparator.is_integer(-1.5)\n",
    "a value just above a negative integer", "is_integer fails on one side of negative integers")
bug("C01b", "C01", "utilities/_comparator.py", [("            result = np.logical_or(comparator(value), value <= test)", "            result = np.logical_or(comparator(value), value <= test) if test == 0 else np.asarray(value <= test)")],
    "from pytimize.utilities import Comparator\nassert Comparator.is_close_compare(5 + 1e-9, '<=', 5)\n",
    "a value slightly above a nonzero test value", "trichotomy fails: neither <= nor > holds")
bug("F01a", "F01", "formulations/linear/_equation.py", [("    def __iadd__(self, other) -> \"LinearEquation\":\n        return self + other\n", "    def __iadd__(self, other) -> \"LinearEquation\":\n        result = self + other\n        self._terms, self._constant = result.terms, result.constant\n        return self\n")],
    FO + "a, b, c = variables(3)\ne = a + b\nf = e\nf += c\np = maximize(e).subject_to(a + b + c <= 1).program\nassert p.c.tolist() == [1, 1, 0], p.c\n",
    "an expression kept under two names and one of them extended with +=", "expressions change when they are used")
bug("F01b", "F01", "formulations/linear/_equation.py", [("        if array_one.shape[0] > array_two.shape[0]:\n            array_one, array_two = array_two, array_one\n\n        return array_two + pad_right(array_one, array_two.shape[0])", "        if array_one.shape[0] > array_two.shape[0]:\n            return array_one - pad_right(array_two, array_one.shape[0])\n\n        return array_two + pad_right(array_one, array_two.shape[0])")],
    FO + "a, b, c = variables(3)\np = maximize(a).subject_to(a + b + c <= 2 * a).program\nassert p.A.tolist() == [[-1, 1, 1]], p.A\n",
    "variables on both sides, the left side having the highest one", "coefficients of the right-hand side get the wrong sign")
bug("F02a", "F02", "formulations/linear/_abstract.py", [("        self._add_variable_constraint([], self._negative_variables)\n        self._recompile = True\n", "        self._add_variable_constraint([], self._negative_variables)\n")],
    FO + "a, b = variables(2)\nf = maximize(a + b).subject_to(a + 2 * b <= 1)\nf.program\nf.whereAllNegative()\nassert f.program.negative_variables == [1, 2], f.program.negative_variables\n",
    "a program compiled before the declaration", "the declaration has no effect on the compiled program")
bug("F02b", "F02", "formulations/linear/_abstract.py", [("        if len(positive_set.intersection(negative_set)) > 0:", "        if len(positive_set.intersection(negative_set)) > 0 and len(positive_set) <= len(negative_set):")],
    FO + "a, b, c = variables(3)\nf = maximize(a + b).subject_to(a + 2 * b + c <= 1)\nf.where(a >= 0, b >= 0)\ntry:\n    f.where(b <= 0)\nexcept ValueError:\n    raise SystemExit(0)\nraise SystemExit(1)\n",
    "a contradiction when more variables are nonnegative than nonpositive", "contradictory declarations are accepted")
bug("P01a", "P01", "parsers/_graph.py", [("            term = re.compile(r\"(\\w+)-(\\w+):(\\d+(?:\\.\\d+)?)\")\n\n        for", "            term = re.compile(r\"(\\w+)-(\\w+):(\\d+(?:\\.\\d)?)\")\n\n        for")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('aa-bb:1.25 a-c:2') == [('aa', 'bb', 1.25), ('a', 'c', 2.0)]\n",
    "a weight with two or more decimals in the name-name:weight form", "weights are cut off")
bug("P01b", "P01", "parsers/_graph.py", [("            term = re.compile(r\"(\\w+)-(\\w+)\")", "            term = re.compile(r\"([^\\W\\d]\\w*)-(\\w+)\")")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('1a-bb c-2') == [('1a', 'bb', 0), ('c', '2', 0)]\n",
    "names that begin with a digit", "names lose leading digits or terms vanish")
bug("P02a", "P02", "parsers/_linear.py", [("                    if index > length:\n                        length = index\n", "                    length = index if coefficient != \"0\" and index > length else length\n")],
    "from pytimize.parsers import LinearParser\nassert LinearParser.parse('1x_1+0x_3').tolist() == [[1, 0, 0]]\n",
    "a zero coefficient at the largest index", "the vector is too short")
bug("P02b", "P02", "parsers/_linear.py", [("            term = re.compile(r\"(\\+|-)?(\\d+(?:\\.\\d+)?)x_(\\d+)\")", "            term = re.compile(r\"(\\+|-)?(\\d+(?:\\.\\d+)?)x_0?(\\d)\")")],
    "from pytimize.parsers import LinearParser\nassert LinearParser.parse('1x_12').tolist() == [[0] * 11 + [1]]\n",
    "an index of two digits", "indices are cut off")


# ---- second batch -----------------------------------------------------------
bug("L02a", "L02", L, [("        certificate[negative_indices] *= -1\n\n        return None, None, certificate", "        certificate[negative_indices[0][-2:]] *= -1\n\n        return None, None, certificate")],
    LP + "p = LinearProgram([[1., 1., 0.], [-1., -1., 0.], [0., 1., 1.]], [-1., -2., -1.], [0., 0., 0.])\nx, b, y = p.two_phase_simplex()\nassert x is None\ny = np.array(y)\nassert (y @ p.A >= -1e-9).all() and y @ p.b < -1e-9, y\n",
    "an infeasible program with at least three negative right-hand sides", "infeasibility certificates refer to rows with the wrong sign")
bug("L03a", "L03", L, [("        for i in N:\n            if Comparator.is_positive(self._c[i]):\n                k = i\n\n                break\n", "        for i in N:\n            if Comparator.is_positive(self._c[i]) and (k is None or self._c[i] > 10 * self._c[k]):\n                k = i\n")],
    LP + "p = LinearProgram([[1., 1., 1.]], [4.], [1., 18., 0.])\nx, b, q = p.simplex_iteration([3])\nassert b == [1], b\n",
    "a reduced cost more than ten times that of the lowest improving variable", "the entering variable is not Bland's")
bug("L03b", "L03", L, [("            if Comparator.is_positive(Ak[i]):\n", "            if Ak[i] > 2e-2 * max(Ak):\n")],
    LP + "p = LinearProgram([[1., 1., 0.], [100., 0., 1.]], [1., 200.], [1., 0., 0.])\nx, b, q = p.simplex_iteration([2, 3])\nassert b == [1, 3], b\n",
    "pivot candidates of very different size, the small one having the smallest ratio", "the ratio test skips small entries, so the next basis is infeasible")
bug("L04b", "L04", L, [("        z = y_transpose @ self._b + self._z\n", "        z = Ab_inverse.T.round(4).T.dot(self._b) @ cb + self._z\n")],
    LP + "p = LinearProgram([[3., 1000., 1.]], [1000.], [10., 2000., 3.])\nq = p.to_canonical_form([1])\nassert abs(q.z - 10000 / 3) < 1e-5, q.z\n",
    "inverses with non-terminating decimals and large right-hand sides", "the constant of the canonical form is off")
bug("L05a", "L05", L, [("            self._A = np.insert(self._A, index + 1, -self._A[:, index], 1)\n", "            self._A = np.insert(self._A, index + 1, -self._A[:, index].round(2), 1)\n")],
    LP + "p = LinearProgram([[1.125, 2.]], [4.], [1., 5.], 0, 'max', ['='], [1])\nq = p.to_sef()\nassert q.A.tolist() == [[1.125, -1.125, 2.]], q.A\n",
    "a free variable whose column has more than two decimals", "the twin of a free variable is not its negative")
bug("L05b", "L05", L, [("            self._c = -self._c\n            self._objective = \"max\"", "            self._c = -self._c\n            self._z = -self._z\n            self._objective = \"max\"")],
    LP + "p = LinearProgram([[1., 2.]], [4.], [1., 5.], 7, 'min', ['='])\nassert p.to_sef().z == 7\n",
    "a minimisation with a constant", "the constant changes sign in standard equality form")
bug("L07b", "L07", L, [("        return Comparator.is_close_compare(yA, \">=\", 0) and Comparator.is_negative(yb)", "        return Comparator.is_close_compare(yA.round(2), \">=\", 0) and Comparator.is_negative(yb)")],
    LP + "p = LinearProgram([[1., -1.]], [4.], [2., 1.])\nassert not p.verify_infeasibility([-.004])\n",
    "a candidate that misses yA >= 0 by a small amount", "vectors that prove nothing are accepted")
bug("L09a", "L09", L, [("        A_aux = self._A.copy()\n", "        A_aux = self._A\n")],
    LP + "p = LinearProgram([[-1., -1.]], [-4.], [2., 1.])\np.two_phase_simplex()\nassert p.A.tolist() == [[-1, -1]], p.A\n",
    "a negative right-hand side", "two-phase simplex changes the program it runs on")
bug("L12b", "L12", L, [("        for i in range(shape[0]):\n            entry, curr_b_int_spaces, curr_b_dec_spaces = self._format_number(", "        for i in range(max(1, shape[0] - 1)):\n            entry, curr_b_int_spaces, curr_b_dec_spaces = self._format_number(")],
    LP + "p = LinearProgram([[1.], [1.], [1.]], [4., 5., 600.], [2.], 0, 'max', ['<='] * 3)\nw = [len(t) for t in str(p).splitlines() if t.startswith('[')]\nassert len(set(w)) == 1, str(p)\n",
    "the widest right-hand side in the last row", "the right-hand side is not aligned")
bug("G01a", "G01", U, [("        return self._edges.copy()\n", "        return self._edges if len(self._edges) > 3 else self._edges.copy()\n")],
    GR + "g = UndirectedGraph()\nfor e in ('ab', 'bc', 'cd', 'de'):\n    g.add_edge(tuple(e))\ns = g.edges\ng.add_edge(('a', 'e'))\nassert ('a', 'e') not in s\n",
    "a dictionary of more than three edges kept while the graph changes", "returned dictionaries are not snapshots")
bug("G01b", "G01", U, [("        self._vertices.setdefault(edge[1], 0)\n", "        self._vertices[edge[1]] = 0\n")],
    GR + "g = UndirectedGraph()\ng.add_vertex('b', 5)\ng.add_edge(('a', 'b'))\nassert g.get_vertex_weight('b') == 5\n",
    "an edge added to an existing weighted vertex", "vertex weights are lost when an edge is added")
bug("G04a", "G04", U, [("                        if slack < best_slack:\n", "                        if slack < .9 * best_slack:\n")],
    GR + "g = UndirectedGraph(edges={('s', 'a'): 100, ('a', 't'): 100, ('s', 'b'): 95, ('b', 't'): 100, ('s', 'c'): 98, ('c', 't'): 95})\nw = sum(g.get_edge_weight(e) for e in g.shortest_path('s', 't'))\nassert w == 193, w\n",
    "edge weights that differ by less than ten percent", "the path returned is not the shortest")
bug("P01a", "P01", "parsers/_graph.py", [("            result.append((info[0], info[1], float(info[2]) if parse_type > 1 else 0))\n", "            entry = info[0], info[1], float(info[2]) if parse_type > 1 else 0\n            entry in result or result.append(entry)\n")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('ab bc ab') == [('a', 'b', 0), ('b', 'c', 0), ('a', 'b', 0)]\n",
    "a repeated term", "repeated terms vanish")
bug("P01b", "P01", "parsers/_graph.py", [("            term = re.compile(r\"(\\w+)-(\\w+)\")", "            term = re.compile(r\"(\\w+)-(\\w+)\", re.A)")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('\u00e9a-bb') == [('\u00e9a', 'bb', 0)]\n",
    "names with letters outside ASCII", "names are cut off")
bug("C01b", "C01", "utilities/_comparator.py", [("            Comparator.is_close_to_zero if test == 0 else", "            Comparator.is_close_to_zero if abs(test) < 1e-6 else")],
    "from pytimize.utilities import Comparator\nassert not Comparator.is_close_compare(2e-7, '>', 2e-7 - 1e-9)\nassert Comparator.is_close_compare(2e-7 - 1e-9, '>=', 2e-7)\n",
    "a small nonzero test value", "values close to a small test value are not equal to it")
bug("U01a", "U01", "programs/_unconstrained.py", [("        for _ in range(int(max_iteration)):\n            d = -sign * np.asarray(df(x))\n            a = alpha\n", "        a = alpha\n\n        for _ in range(int(max_iteration)):\n            d = -sign * np.asarray(df(x))\n")],
    "from pytimize.programs import UnconstrainedProgram\nimport numpy as np\np = UnconstrainedProgram(lambda x: x[0] ** 2 * 4 + x[1] ** 2 / 4)\nx = p.steepest_descent(np.array([1., 10.]), lambda x: np.array([8 * x[0], x[1] / 2]), c=.25, max_iteration=2)\ny = np.array([1., 10.])\nfor _ in range(2):\n    d = -np.array([8 * y[0], y[1] / 2])\n    a = 1\n    f = lambda x: x[0] ** 2 * 4 + x[1] ** 2 / 4\n    while f(y + a * d) > f(y) - .25 * a * d @ d:\n        a /= 2\n    y = y + a * d\nassert np.allclose(x, y), (x, y)\n",
    "a later step that may be longer than an earlier one", "backtracking starts from the previous step length")
bug("U01b", "U01", "programs/_unconstrained.py", [("            x += d\n\n            if np.linalg.norm(df(x)) <= tolerance:", "            x += d\n\n            if np.linalg.norm(d) <= 1:")],
    "from pytimize.programs import UnconstrainedProgram\nimport numpy as np\np = UnconstrainedProgram(lambda x: x[0] ** 4 / 4 - 2 * x[0])\nx = p.newton_method(np.array([1.1]), lambda x: np.array([x[0] ** 3 - 2]), lambda x: np.array([[3 * x[0] ** 2]]))\nassert abs(x[0] - 2 ** (1 / 3)) < 1e-3, x\n",
    "a function that is not quadratic, and a short step far from the optimum in gradient", "Newton's method stops too early")
