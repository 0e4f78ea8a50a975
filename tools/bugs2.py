L, I, U, D = "programs/_linear.py", "programs/_integer.py", "graphs/_undirected.py", "graphs/_directed.py"
X = "programs/_unconstrained.py"
LP = "from pytimize.programs import LinearProgram, IntegerProgram\nimport numpy as np\n"
UP = "from pytimize.programs import UnconstrainedProgram\nimport numpy as np\n"
GR = "from pytimize.graphs import UndirectedGraph, DirectedGraph\n"
FO = "from pytimize.formulations.linear import *\nimport pytimize.formulations.linear as F\n"
PL = "import matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nkept = []\nplt.plot = lambda xs, ys, *a, **k: kept.append(list(zip(map(float, xs), map(float, ys))))\nplt.show = lambda *a, **k: None\n"
BUGS = []


def bug(id, p, f, edits, demo, needs, breaks):
    BUGS[:] = [b for b in BUGS if b["id"] != id]
    BUGS.append(dict(id=id, p=p, f=f, edits=edits, demo=demo, needs=needs, breaks=breaks))


# L13
bug("L13a", "L13", L, [("                        arr[[row, row + i]] = arr[[row + i, row]]\n", "                        arr[row] += arr[row + i]\n                        arr[row + i] -= arr[row]\n")],
    LP + "p = LinearProgram([[1.]], [1.], [1.])\nM = np.array([[0., 1., 1.], [2., 4., 2.]])\nR = p.to_rref(M)\nassert np.allclose(R, [[1, 0, -1], [0, 1, 1]]), R\nM = np.array([[0., 3., 1.], [0., 0., 2.], [2., 4., 2.]])\nassert np.allclose(p.to_rref(M), np.eye(3)), p.to_rref(M)\nfor M in ([[0., 2., 1.], [0., 0., 0.], [3., 1., 1.]], [[0., 0., 1.], [0., 1., 1.], [1., 1., 1.]]):\n    R = p.to_rref(np.array(M))\n    assert np.allclose(np.tril(R, -1), 0), R\n",
    "a zero pivot", "")
bug("L13b", "L13", L, [("                if not i == row:\n                    multiple", "                if not i == row and not Comparator.is_close_to_zero(arr[i, col] - arr[row, -1]):\n                    multiple")],
    LP + "p = LinearProgram([[1.]], [1.], [1.])\nR = p.to_rref(np.array([[1., 0., 2.], [2., 1., 2.]]))\nassert np.allclose(R, [[1, 0, 2], [0, 1, -2]]), R\n",
    "an entry to eliminate that equals the last entry of the pivot row", "elimination is skipped for some rows")
bug("L13c", "L13", L, [("                    if col < last_leading_one:", "                    if row > 1 and col < last_leading_one:")],
    LP + "p = LinearProgram([[0., 1.], [1., 0.]], [1., 1.], [1., 1.])\nassert not p.is_in_rref\n",
    "leading ones out of order in the first two rows", "matrices whose leading ones move to the left are recognised as reduced")
# L14
bug("L14a", "L14", L, [("                        for index, value in enumerate(dual._A[i])", "                        for index, value in enumerate(abs(dual._A[i]) if dual._inequality_indices[i] == self._objective else dual._A[i])"),
                       ("            if i in dual._inequality_indices:\n", "            if i in dual._inequality_indices and (i not in self._negative_variables or self._c[i] != 0):\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 0.], 0, 'max', ['<='], None, [2])\nassert 'x₂ = 0' in p.cs_conditions(), p.cs_conditions()\n",
    "a nonpositive variable of cost zero", "the condition of a nonpositive variable of cost zero is missing")
bug("L14b", "L14", L, [("                    + f\" = {self._b[i]}\"", "                    + f\" = {self._b[i] or self._z}\"")],
    LP + "p = LinearProgram([[1., 1.]], [0.], [2., 1.], 5, 'max', ['<='])\nassert '= 0.0' in p.cs_conditions().splitlines()[0].split('||')[1], p.cs_conditions()\n",
    "a right-hand side of zero and a nonzero constant", "the condition names the wrong right-hand side")
# L15
bug("L15a", "L15", L, [("            elif item == 0:\n                negative_variables.append(i + 1)", "            elif item == 0 and i < columns - 1:\n                negative_variables.append(i + 1)")],
    LP + "assert any(LinearProgram.random(2, 3).negative_variables[-1:] == [3] for _ in range(300))\n",
    "the last variable drawn nonpositive", "the last variable is never nonpositive")
bug("L15b", "L15", L, [("        b = np.round(np.random.uniform(-1, 1, rows) * magnitude, 2)", "        b = np.round(np.random.uniform(-1, 1, rows), 2) * magnitude")],
    LP + "v = [x for _ in range(60) for x in LinearProgram.random(3, 2, 10000).b]\nassert any(abs(x / 100 - round(x / 100)) > 1e-6 for x in v)\n",
    "", "")
bug("L15c", "L15", L, [("        c = np.round(np.random.uniform(-1, 1, columns) * magnitude, 2)\n", "        c = np.round(np.random.standard_normal(columns) * magnitude / 3, 2)\n")],
    LP + "m = max(abs(LinearProgram.random(2, 40, 10).c).max() for _ in range(400))\nassert m <= 10.005, m\n",
    "many draws (a normal variate beyond three standard deviations)", "costs exceed the magnitude")
# L16
bug("L16a", "L16", L, [("        p_aux = self.auxiliary(show_steps).to_sef(show_steps, True)", "        p_aux = self.auxiliary().to_sef(show_steps, True)")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\np.two_phase_simplex(False)\nassert p.steps == [], p.steps\n",
    "", "")
bug("L16b", "L16", L, [("            show_steps and self.__append_to_steps((\"5.04\", basis))", "            show_steps and self.__append_to_steps((\"5.04\", converted_basis))")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\np.simplex([2])\nt = [s['text'] for s in p.steps if s['key'] == '5.04']\nassert '1' in t[-1] and '0' not in t[-1], t\n",
    "reading the final step of simplex", "the log names the basis by 0-based indices")
bug("L16c", "L16", L, [("        self._steps = []\n\n        return self\n", "        self._steps.clear()\n\n        return self\n"), ("        p._steps = self._steps.copy()", "        p._steps = self._steps")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\np.simplex([2])\nn = len(p.steps)\np.copy().clear_steps(True)\nassert n and len(p.steps) == n\n",
    "", "")
# V01
bug("V01a", "V01", L, [("                    points.append(point)\n", "                    if i + 1 < j or not point.any():\n                        points.append(point)\n                    elif np.abs(point).max() < 10 * graph_limit:\n                        points.append(point)\n"),
                       ("                    if np.linalg.matrix_rank(A) < 2:", "                    if abs(A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]) < 1e-3:")],
    LP + PL + "p = LinearProgram([[.01, .02], [.03, .01]], [.04, .05], [1., 1.], 0, 'max', ['<=', '<='])\np.graph_polyhedron()\nassert any(abs(x - 1.2) < 1e-6 and abs(y - 1.4) < 1e-6 for x, y in kept[0]), kept\n",
    "coefficients of about one hundredth", "lines with small coefficients are taken for parallel, corners are missing")
bug("V01b", "V01", L, [("        points.sort(key=lambda p: math.atan2(p[1] - cent[1], p[0] - cent[0]))", "        points.sort(key=lambda p: math.atan2(p[1] - min(cent[1], 1), p[0] - min(cent[0], 1)))")],
    LP + PL + "p = LinearProgram([[-1., 0.], [0., -1.], [1., 0.], [0., 1.], [1., 1.]], [-5., -5., 8., 9., 16.], [1., 1.], 0, 'max', ['<='] * 5)\np.graph_polyhedron()\nk = [q for a, q in enumerate(kept[0][:-1]) if a == 0 or np.hypot(q[0] - kept[0][a - 1][0], q[1] - kept[0][a - 1][1]) > 1e-7]\narea = abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(k, k[1:] + k[:1]))) / 2\nassert abs(area - 11.5) < 1e-6, (area, k)\n",
    "a region away from the axes with more than four corners", "corners are joined in the wrong order")
bug("V01c", "V01", L, [("        graph_limit = abs(graph_limit)\n", "        graph_limit = max(abs(graph_limit), np.abs(self._b).max())\n")],
    LP + PL + "p = LinearProgram([[1., 0.]], [5000.], [1., 1.], 0, 'max', ['<='])\np.graph_polyhedron()\nassert max(x for x, y in kept[0]) <= 1000.0001\n",
    "a right-hand side larger than the limit", "the drawing is cut to a larger square")
# U01
bug("U01a", "U01", X, [("                a *= p\n\n            x += a * d\n", "                a *= p\n\n                if a < 1e-2:\n                    break\n\n            x += a * d\n")],
    UP + "p = UnconstrainedProgram(lambda x: 400 * x[0] ** 2)\nx = p.steepest_descent(np.array([1.]), lambda x: np.array([800 * x[0]]), max_iteration=1)\nassert abs(x[0]) <= 1, x\n",
    "a curvature that needs a step below one hundredth", "backtracking gives up and the step makes the objective worse")
bug("U01b", "U01", X, [("            if np.linalg.norm(df(x)) <= tolerance:\n                break\n\n        return x\n\n    def newton_method", "            if np.abs(df(x)).max() <= tolerance:\n                break\n\n        return x\n\n    def newton_method")],
    UP + "p = UnconstrainedProgram(lambda x: x @ x / 2)\nx = p.steepest_descent(np.array([1., 1., 1.]), lambda x: x, alpha=.5, c=.5, tolerance=.3)\nassert np.linalg.norm(x) <= .3, x\n",
    "several variables with gradient entries each within tolerance", "the iteration stops before the gradient norm is within tolerance")
bug("U01c", "U01", X, [("        x = np.array(x, dtype=float)\n        sign", "        x = np.asarray(x, dtype=float)\n        sign")],
    UP + "p = UnconstrainedProgram(lambda x: x @ x / 2)\ns = np.array([1., 1.])\np.steepest_descent(s, lambda x: x)\nassert s.tolist() == [1, 1]\n",
    "a starting point given as an array of floats", "the caller's starting point is overwritten")
# G
bug("G05b", "G05", U, [("        for vertex, weight in self._vertices.items():\n            c[mapping[vertex]] = weight\n", "        for vertex in self._vertices:\n            c[list(self._graph).index(vertex)] = self._vertices[vertex]\n")],
    GR + "g = UndirectedGraph()\ng.add_edge(('b', 'a'))\ng.set_vertex_weight('a', 5)\ng.set_vertex_weight('b', 1)\np, m = g.formulate_max_stable_set()\nassert p.c[m['a']] == 5 and p.c[m['b']] == 1\ng = UndirectedGraph(graph={'b': {'a'}, 'a': {'b'}}, vertices={'a': 5, 'b': 1, 'c': 2})\np, m = g.formulate_max_stable_set()\nassert p.c[m['a']] == 5 and p.c[m['b']] == 1\nfrom itertools import permutations\nfor e in (('a', 'b'), ('b', 'a')):\n    g = UndirectedGraph()\n    g.add_edge(('c', 'b'))\n    g.add_edge(e)\n    for i, v in enumerate('abc'):\n        g.set_vertex_weight(v, i)\n    g = g.partition()[0]\n    p, m = g.formulate_max_stable_set()\n    assert [p.c[m[v]] for v in 'abc'] == [0, 1, 2]\n",
    "adjacency and vertex dictionaries in different orders", "weights are attached to the wrong vertices")
bug("G05c", "G05", U, [("            A = np.vstack((A, row))\n            b = np.hstack((b, 1))\n", "            A = np.vstack((A, row))\n            b = np.hstack((b, 1 + (len(self._graph) > rows)))\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0}, vertices={'a': 1, 'b': 1, 'c': 3})\np, m = g.formulate_max_stable_set()\nx = p.branch_and_bound()\nassert x[m['c']] <= 1, x\n",
    "a graph with more vertices than edges (with an isolated vertex)", "isolated vertices may be counted twice")
bug("G06b", "G06", D, [("            if isinstance(demands, tuple):\n                a_demand, b_demand = demands\n", "            if isinstance(demands, tuple):\n                a_demand, b_demand = sorted(demands)\n")],
    GR + "g = DirectedGraph()\ng.add_arc(('a', 'b'), 1, (5, 2))\nassert g.nodes == {'a': 5, 'b': 2}, g.nodes\n",
    "demands in descending order", "demands are assigned to the wrong endpoints")
bug("G06c", "G06", D, [("            if self.connections(arc[0]) == 0:\n                del self._graph[arc[0]]\n                del self._nodes[arc[0]]\n\n            if self.connections(arc[1]) == 0:", "            if self.connections(arc[0]) == 0:\n                del self._graph[arc[0]]\n                del self._nodes[arc[0]]\n\n            if self.connections(arc[1]) == 0 and arc[0] in self._nodes:")],
    GR + "g = DirectedGraph()\ng.add_arc(('a', 'b'))\ng.remove_arc(('a', 'b'), True)\nassert g.nodes == {}, g.nodes\n",
    "an arc whose removal isolates both endpoints", "the second endpoint stays")
bug("G07a", "G07", D, [("                    for endpoint in residual[node]:\n                        max_height = min(height[endpoint], max_height)\n\n                    height[node] = max_height + 1", "                    for endpoint in residual[node]:\n                        if height[endpoint] >= height[node]:\n                            max_height = min(height[endpoint], max_height)\n\n                    height[node] = max(max_height + 1, 3)")],
    GR + "import random\nr = random.Random(5)\nfor _ in range(6000):\n    n = r.randint(3, 7)\n    g = DirectedGraph(nodes={str(i): 0 for i in range(n)})\n    for a in range(n):\n        for b in range(n):\n            if a != b and r.random() < .4:\n                g.add_arc((str(a), str(b)), r.randint(0, 6))\n    v, f = g.preflow_push('0', str(n - 1))\n    w, _ = g.ford_fulkerson('0', str(n - 1))\n    assert abs(v - w) < 1e-9, (v, w, g.arcs)\n",
    "", "preflow push returns a flow that is not maximum")
bug("G07b", "G07", D, [("                if endpoint in seen:\n                    continue\n\n                parent[endpoint] = current\n", "                if endpoint in seen or len(parent) >= len(self._nodes) - 1 - (len(self._arcs) > 9):\n                    continue\n\n                parent[endpoint] = current\n")],
    GR + "g = DirectedGraph(arcs={(str(i), str(i + 1)): 2 for i in range(11)})\nassert g.ford_fulkerson('0', '11')[0] == 2\n",
    "more than nine arcs and an augmenting path that needs every node", "the last augmenting path is not found")
bug("G07c", "G07", D, [("            excess[node] = sum(flow[arc] for arc in self.ncut(node))\n            excess[node] -= sum(flow[arc] for arc in self.cut(node))", "            excess[node] = flow.get((source, node), 0)")],
    GR + "g = DirectedGraph(arcs={('s', 'a'): 3, ('a', 't'): 3})\nassert g.preflow_push('s', 't')[0] == 3\n",
    "none", "none (equivalent)")
bug("G07d", "G07", D, [("        value = sum(flow[arc] for arc in self.cut(source))\n        value -= sum(flow[arc] for arc in self.ncut(source))\n\n        return value, flow\n\n    def _bfs_path", "        value = sum(flow[arc] for arc in self.ncut(sink))\n\n        return value, flow\n\n    def _bfs_path")],
    GR + "g = DirectedGraph(arcs={('s', 'a'): 3, ('a', 't'): 3, ('t', 'b'): 2, ('b', 't'): 2, ('t', 's'): 1})\nv, f = g.preflow_push('s', 't')\nassert v == 3, (v, f)\ng = DirectedGraph(arcs={('s', 't'): 3, ('t', 'b'): 2, ('b', 't'): 2, ('s', 'b'): 9})\nfor k in range(1):\n    v, f = g.preflow_push('s', 't')\n    assert v == sum(f[a] for a in f if a[1] == 't') - sum(f[a] for a in f if a[0] == 't'), (v, f)\n",
    "", "")
bug("D01b", "D01", "utilities/_disjoint.py", [("            self._set[parent_one] = parent_two", "            self._set[set_one] = parent_two")],
    "from pytimize.utilities import DisjointSet\nd = DisjointSet(list('abcdefgh'))\nfor s in ('ab', 'cd', 'ac', 'ef'):\n    d.union(*s)\nd.union('f', 'b')\nassert d.find('e') == d.find('a')\n",
    "a union whose first item is a non-root member of the group of lower rank", "part of the group is left behind")
# L others
bug("L03c", "L03", L, [("                if ratio < t and not math.isclose(ratio, t, rel_tol=1e-9, abs_tol=1e-10):", "                if ratio < t or math.isclose(ratio, t, rel_tol=1e-9, abs_tol=1e-10):")],
    LP + "p = LinearProgram([[1., 1., 0.], [2., 0., 1.]], [2., 4.], [1., 0., 0.])\nx, b, q = p.simplex_iteration([2, 3])\nassert b == [1, 3], b\n",
    "a tie in the ratio test", "the highest index leaves")
bug("L03d", "L03", L, [("        basis.sort()\n        self.__to_canonical_form(basis, show_steps)", "        self.__to_canonical_form(basis, show_steps)")],
    LP + "p = LinearProgram([[1., 1., 0., 1.], [1., 0., 1., 2.]], [2., 2.], [1., 0., 0., 0.])\nx, b, q = p.simplex_iteration([3, 2])\nassert b == [1, 3], b\n",
    "a basis given in descending order", "the leaving variable of a tie depends on the order")
bug("L09c", "L09", I, [("    def copy(", "    def copy(")], "", "", "")
bug("L12c", "L12", L, [("        if len(self._free_variables)", "        if len(self._free_variables)")], "", "", "")
BUGS[:] = [b for b in BUGS if b["demo"]]
bug("L12c", "L12", L, [("                if self._inequality_indices[row] == \">=\":\n                    output", "                if self._inequality_indices[min(row, 8) if row in (9, 10) else row] == \">=\" if (min(row, 8) if row in (9, 10) else row) in self._inequality_indices else False:\n                    output")],
    LP + "p = LinearProgram(np.ones((10, 1)), np.ones(10), [2.], 0, 'max', ['<='] * 9 + ['>='])\nassert str(p).count('≥') == 2, str(p)\n",
    "a tenth row with another relation than the ninth", "the relation of row ten is shown wrongly")
bug("L12d", "L12", L, [("                int_length = max(curr_int_length, int_length)\n", "                int_length = max(len(str(int(self._A[row, col]))), int_length)\n")],
    LP + "p = LinearProgram([[-.5, 1.], [3., 1.]], [4., 5.], [2., 1.], 0, 'max', ['<=', '<='])\nw = [len(t) for t in str(p).splitlines() if t.startswith('[')]\nassert len(set(w)) == 1, str(p)\n",
    "a negative coefficient between -1 and 0 that is the widest of its column", "columns are not aligned")
bug("L09c", "L09", I, [("            list(integral_variables) if integral_variables is not None else None", "            integral_variables if integral_variables is not None else None")],
    LP + "l = [1]\np = IntegerProgram([[2., 2.]], [5.], [1., 1.], 0, 'max', ['<='], None, None, l)\nl.append(2)\nx = p.branch_and_bound()\nassert abs(p.evaluate(x) - 2.5) < 1e-9, x\n",
    "the caller changes the list of integral variables afterwards", "the program shares the list of integral variables with its caller")
bug("L09d", "L09", L, [("            return source.astype(float)\n", "            return source.astype(float, copy=source.size > 6)\n")],
    LP + "A = np.array([[1., 1.]])\np = LinearProgram(A, [4.], [2., 1.])\nA[0, 0] = 9\nassert p.A[0, 0] == 1\n",
    "small arrays of floats that the caller changes afterwards", "the program shares its data with the caller's arrays")
bug("L01c", "L01", L, [("        if columns >= rows:\n            basis_candidate", "        if columns >= rows and self._free_variables == []:\n            basis_candidate"), ("            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1", "            for i in sef._reverse_sef[\"negative\"]:\n                solution[i - (i > 2)] *= -1")],
    LP + "p = LinearProgram([[1., 1., 1., 1.]], [4.], [1., 1., 1., -1.], 0, 'max', ['<='], None, [4])\np.add_constraint([0., 0., 0., 1.], '>=', -2., True)\nassert np.allclose(p.solve()[3], -2), p.solve()\n",
    "a nonpositive variable in position four or later", "another variable is negated")
bug("L02c", "L02", L, [("                reduced_certificate = certificate\n                certificate = np.zeros(rows)\n                certificate[independent_rows] = reduced_certificate", "                certificate = np.append(certificate, np.zeros(rows - len(independent_rows)))")],
    LP + "p = LinearProgram([[1., 0., 0.], [2., 0., 0.], [0., 1., 1.]], [1., 2., 3.], [1., 2., 1.])\nx, b, y = p.two_phase_simplex()\nassert (y @ p.A >= p.c - 1e-9).all() and abs(y @ p.b - p.c @ x) < 1e-9, y\n",
    "a redundant row that is not last", "the optimality certificate is for other rows")
bug("L05c", "L05", L, [("        for i in self._negative_variables:\n            self._A[:, i] *= -1\n            self._c[i] *= -1\n", "        for i in self._negative_variables:\n            self._A[:, i] *= -1\n            self._c[i] = -abs(self._c[i]) if len(self._negative_variables) > 2 else -self._c[i]\n")],
    LP + "p = LinearProgram([[1., 2., 3.]], [4.], [-1., 5., 1.], 0, 'max', ['='], None, [1, 2, 3])\nassert p.to_sef().c.tolist() == [1, -5, -1], p.to_sef().c\n",
    "three nonpositive variables of which one has a negative cost", "costs of nonpositive variables are wrong")
bug("L06c", "L06", L, [("        dual._free_variables", "        dual._free_variables")], "", "", "")
bug("L08c", "L08", L, [("        return self.is_basis(basis) and Comparator.is_close_compare(\n            self.compute_basic_solution(basis), \">=\", 0\n        )", "        return self.is_basis(basis) and Comparator.is_close_compare(\n            self.compute_basic_solution(basis)[[i - 1 for i in basis[:3]]], \">=\", 0\n        )")],
    LP + "p = LinearProgram(np.hstack((np.eye(4), np.eye(4))), [1., 1., 1., -1.], np.ones(8))\nassert not p.is_basis_feasible([1, 2, 3, 4])\n",
    "a basis of four or more columns whose last entry is negative", "infeasible bases are called feasible")
bug("L08d", "L08", L, [("    def is_solution_optimal(self, x):", "    def is_solution_optimal(self, x):")], "", "", "")
bug("I01c", "I01", I, [("                    lp.add_constraint(new_row, \">=\", np.ceil(value))", "                    lp.add_constraint(new_row, \">=\", np.trunc(value) + 1)")],
    LP + "p = IntegerProgram([[2.], [-2.]], [-1., 3.], [1.], 0, 'max', ['<=', '<='], [1])\nx = p.branch_and_bound()\nassert x is not None and abs(x[0] + 1) < 1e-9, x\np = IntegerProgram([[2., 0.], [-2., 0.], [0., 2.]], [-1., 1., 1.], [1., 1.], 0, 'max', ['<=', '<=', '<='], [1, 2])\nassert p.branch_and_bound() is None\np = IntegerProgram([[2., 1.], [-2., 1.]], [-1., 1.], [0., 1.], 0, 'max', ['<=', '<='], [1, 2])\nx = p.branch_and_bound()\nassert abs(p.evaluate(x) + 1) < 1e-9, x\n",
    "a free variable whose relaxed value is a negative fraction", "the upper branch starts one too high, integer points are lost")
bug("I01d", "I01", I, [("                elif higher_result[1] < lower_result[1]:", "                elif abs(higher_result[1]) < abs(lower_result[1]):")],
    LP + "p = IntegerProgram([[2., 2.], [2., -2.]], [5., 1.], [-1., -3.], 0, 'min', ['<=', '<='])\nx = p.branch_and_bound()\nbest = min(-a - 3 * b for a in range(6) for b in range(6) if 2 * a + 2 * b <= 5 and 2 * a - 2 * b <= 1)\nassert abs(p.evaluate(x) - best) < 1e-9, (x, best)\nfrom itertools import product\nfor c in product((-5., -3., -1.), repeat=2):\n    for A in ([[3., 2.], [-2., 4.]], [[4., 3.], [1., -2.]]):\n        p = IntegerProgram(A, [7., 3.], list(c), 0, 'min', ['<=', '<='])\n        best = min(c[0] * a + c[1] * b for a in range(9) for b in range(9) if A[0][0] * a + A[0][1] * b <= 7 and A[1][0] * a + A[1][1] * b <= 3)\n        assert abs(p.evaluate(p.branch_and_bound()) - best) < 1e-9\n",
    "a minimisation with negative optimal value", "the worse branch is returned")
bug("G03c", "G03", U, [("                queue.extend(self._graph[current])\n                subgraph", "                queue.extend(sorted(self._graph[current])[:9])\n                subgraph")],
    GR + "g = UndirectedGraph()\nfor i in range(12):\n    g.add_edge(('hub', str(i)))\nassert len(g.partition()) == 1\n",
    "a vertex with more than nine neighbours", "components are split")
bug("G03d", "G03", U, [("            queue.extend(sorted(self._graph[current], key=order))\n", "            queue.extend(sorted(self._graph[current] - set(queue), key=order))\n")],
    GR + "g = UndirectedGraph()\nfor e in (('a', 'b'), ('a', 'c'), ('c', 'b'), ('b', 'd')):\n    g.add_edge(e)\nassert g.dfs('a') == ['a', 'c', 'b', 'd'], g.dfs('a')\n",
    "a triangle at the start vertex with a pendant", "the depth-first order is not depth first")
bug("G04c", "G04", U, [("                        if slack < best_slack:\n", "                        if slack <= best_slack and (slack < best_slack or len(visited) > 6):\n")],
    GR + "pass\n", "", "")
bug("G01c", "G01", U, [("            set(", "            set(")], "", "", "")
bug("G02c", "G02", D, [("        return self.indegree(nodes) + self.outdegree(nodes)", "        return self.indegree(nodes) + self.outdegree(sorted(nodes))")],
    GR + "g = DirectedGraph()\ng.add_arc(('n10', 'b'))\nassert g.connections('n10') == 1\n",
    "a node name of more than one character", "names are taken apart into letters")
bug("G08c", "G08", D, [("                endpoints = residual.setdefault(v, {})\n                endpoints[u] = endpoints.get(u, 0) + value\n\n        return residual", "                endpoints = residual.setdefault(v, {})\n                endpoints[u] = max(endpoints.get(u, 0), self._arcs.get((v, u), 0) - flow.get((v, u), 0)) + value\n\n        return residual")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 5, ('b', 'a'): 4})\nr = g.create_residual({('a', 'b'): 3, ('b', 'a'): 1})\nassert r.arcs == {('a', 'b'): 3, ('b', 'a'): 6}, r.arcs\n",
    "opposite arcs", "spare capacity is counted twice or not at all for opposite arcs")
bug("P02c", "P02", "parsers/_linear.py", [("    def ", "    def ")], "", "", "")
BUGS[:] = [b for b in BUGS if b["demo"]]
