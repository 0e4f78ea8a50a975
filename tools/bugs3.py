import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py")).read().split("# L13")[0])
E = "formulations/linear/_equation.py"
AB = "formulations/linear/_abstract.py"
OB = "formulations/linear/_objective.py"
VA = "formulations/linear/_variable.py"
GP, LPA = "parsers/_graph.py", "parsers/_linear.py"
DS, CO = "utilities/_disjoint.py", "utilities/_comparator.py"

# answers remembered for too long
bug("L01d", "L01", L, [("        sef = self.to_sef(show_steps)\n", "        known = getattr(self, \"_solution\", None)\n\n        if known is not None and known[0] == self._b.shape[0] and known[1].shape == self._c.shape:\n            return known[1].copy()\n\n        sef = self.to_sef(show_steps)\n"),
                       ("                solution[i] *= -1\n            # TODO\n", "                solution[i] *= -1\n\n            self._solution = self._b.shape[0], solution.copy()\n            # TODO\n"),
                       ("        self._c = np.r_[self._c, coefficient]\n", "        self._c = np.r_[self._c, coefficient]\n        known = getattr(self, \"_solution\", None)\n\n        if known is not None and coefficient <= 0:\n            self._solution = known[0], np.r_[known[1], 0]\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='])\np.solve()\np.add_variable(-1., [-1.], in_place=True)\nassert p.solve() is None or abs(p.optimal_value() - 8) > 1, p.solve()\nq = LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nq.add_variable(-1., [-1.], in_place=True)\na, b = p.solve(), q.solve()\nassert (a is None) == (b is None) and (a is None or np.allclose(a, b))\n",
    "a variable of nonpositive cost added in place to a program that was solved before", "solve() answers from memory although the new variable would improve the optimum")
bug("G02d", "G02", U, [("        if isinstance(vertices, str):\n            vertices = {vertices}\n        elif not isinstance(vertices, set):\n            vertices = set(vertices)\n\n        return set(\n", "        if isinstance(vertices, str):\n            vertices = {vertices}\n        elif not isinstance(vertices, set):\n            vertices = set(vertices)\n\n        known = self.__dict__.setdefault(\"_cuts\", {})\n        key = frozenset(vertices), len(self._edges)\n\n        if key in known:\n            return set(known[key])\n\n        known[key] = set(\n"),
                       ("                or (x[1] in vertices and x[0] not in vertices),\n                self._edges.keys(),\n            )\n        )\n", "                or (x[1] in vertices and x[0] not in vertices),\n                self._edges.keys(),\n            )\n        )\n\n        return set(known[key])\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0, ('b', 'c'): 0})\ng.cut('a')\ng.remove_edge(('a', 'b'))\ng.add_edge(('a', 'c'))\nassert g.cut('a') == {('a', 'c')}, g.cut('a')\n",
    "the same set asked before and after one edge is replaced by another", "cuts are answered from memory")
bug("G03d", "G03", U, [("        if self.is_empty():\n            return False\n\n        return len(self.bfs(next(iter(self._vertices)))) == len(self._vertices)\n", "        if self.is_empty():\n            return False\n\n        if not getattr(self, \"_connected\", False):\n            self._connected = len(self.bfs(next(iter(self._vertices)))) == len(\n                self._vertices\n            )\n\n        return self._connected\n"),
                       ("        self._vertices.setdefault(vertex, weight)\n", "        self._vertices.setdefault(vertex, weight)\n        self._connected = False\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0, ('b', 'c'): 0})\nassert g.is_connected()\ng.add_edge(('x', 'y'))\nassert not g.is_connected()\n",
    "a connected graph that was asked and then gets an edge between two new vertices or loses an edge", "is_connected answers from memory")
bug("G04c", "G04", U, [("        potential = {}\n        visited = {start}\n", "        known = self.__dict__.setdefault(\"_paths\", {})\n        key = start, end, sum(self._edges.values())\n\n        if key in known:\n            return list(known[key])\n\n        potential = {}\n        visited = {start}\n"),
                       ("            path.insert(0, (current, previous))\n\n        return path\n", "            path.insert(0, (current, previous))\n\n        known[key] = list(path)\n\n        return path\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 1, ('b', 'c'): 1, ('a', 'c'): 3})\nassert len(g.shortest_path('a', 'c')) == 2\ng.set_edge_weight(('a', 'b'), 3)\ng.set_edge_weight(('a', 'c'), 1)\nassert g.shortest_path('a', 'c') == [('a', 'c')]\n",
    "weights changed between two equal requests without changing their sum", "shortest paths are answered from memory")
bug("G07c", "G07", D, [("        path = self._bfs_path(source, sink, residual)\n\n        while path is not None:\n", "        known = self.__dict__.setdefault(\"_flows\", {})\n        key = source, sink, tuple(self._arcs)\n\n        if key in known and all(known[key][arc] <= self._arcs[arc] for arc in flow):\n            flow.update(known[key])\n            residual = self._compute_residual(flow)\n\n            if all(flow[arc] == self._arcs[arc] for arc in self.cut(source)):\n                return sum(flow[arc] for arc in self.cut(source)), flow\n\n        path = self._bfs_path(source, sink, residual)\n\n        while path is not None:\n"),
                       ("            path = self._bfs_path(source, sink, residual)\n\n        value = sum", "            path = self._bfs_path(source, sink, residual)\n\n        known[key] = dict(flow)\n        value = sum")],
    GR + "g = DirectedGraph(arcs={('s', 'a'): 2, ('a', 's'): 2, ('a', 't'): 2})\nassert g.ford_fulkerson('s', 't')[0] == 2\n", "", "")
bug("G05d", "G05", U, [("        for vertex, weight in self._vertices.items():\n            c[mapping[vertex]] = weight\n", "        for vertex, weight in self._vertices.items():\n            c[mapping[vertex]] = max(weight, 0)\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0}, vertices={'a': 1})\ng.set_vertex_weight('b', -2)\np, m = g.formulate_max_stable_set()\nassert p.c[m['b']] == -2\n",
    "a vertex of negative weight", "negative vertex weights count as zero")
bug("G05e", "G05", U, [("        for a, b in self._edges:\n            row = np.zeros(columns)\n            row[mapping[a]] = 1\n            row[mapping[b]] = 1\n            A = np.vstack((A, row))\n\n        A = A[1:]\n        b = np.ones(rows)\n", "        for a, b in self._edges:\n            row = np.zeros(columns)\n            row[mapping[a]] = 1\n            row[mapping[b]] = 1\n            A = np.vstack((A, row))\n\n        A = np.unique(np.round(A[1:] @ np.diag(np.arange(1, columns + 1) % 8), 6), axis=0).clip(0, 1)\n        rows = A.shape[0]\n        b = np.ones(rows)\n")],
    GR + "V = 'abcdefghij'\ng = UndirectedGraph({v: set() for v in V}, {('a', 'h'): 0, ('b', 'h'): 0, ('a', 'b'): 0})\np, m = g.formulate_max_stable_set()\nx = [0.] * 10\nx[m['a']] = x[m['h']] = 1.\nassert not p.is_feasible(x)\n",
    "an edge at the eighth vertex", "an edge has no constraint")
bug("G01e", "G01", U, [("                if not self.has_edge(edge):\n                    self.add_edge(edge)\n\n                self.set_edge_weight(edge, weight)\n", "                if not self.has_edge(edge):\n                    self.add_edge(edge, weight)\n                elif weight:\n                    self.set_edge_weight(edge, weight)\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 5, ('b', 'a'): 0})\nassert g.get_edge_weight(('a', 'b')) == 0\n",
    "an edge given in both directions, the second time with weight zero", "the weight given last does not count")
bug("G01f", "G01", U, [("        self._edges[tuple(sorted(edge))] = weight\n", "        self._edges[edge if edge[0] < edge[1] or edge[0][0] == edge[1][0] else edge[::-1]] = weight\n")],
    GR + "g = UndirectedGraph(edges={('aa', 'ab'): 5})\ng.set_edge_weight(('ab', 'aa'), 2)\nassert g.get_edge_weight(('aa', 'ab')) == 2 and len(g.edges) == 1\n",
    "an edge named backwards whose vertex names share their first letter", "the weight is kept under a second name of the edge")
bug("G06b", "G06", D, [("                        arc = (node, connection)\n\n                        if self.has_arc(arc):\n", "                        arc = (node, connection)\n\n                        if self.has_arc(arc) or node in graph.get(connection, ()) and self.has_arc(arc[::-1]):\n")],
    GR + "g = DirectedGraph({'a': {'b'}, 'b': {'a'}})\nassert set(g.arcs) == {('a', 'b'), ('b', 'a')}\n",
    "opposite arcs in the adjacency given to the constructor", "one of two opposite arcs is lost")
bug("G06c", "G06", D, [("            if self.connections(arc[0]) == 0:\n", "            if self.connections(arc) == 0:\n"), ("            if self.connections(arc[1]) == 0:\n", "            if arc[0] not in self._nodes:\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 1, ('b', 'c'): 1})\ng.remove_arc(('a', 'b'), True)\nassert set(g._nodes) == {'b', 'c'}, g._nodes\n", "one endpoint isolated and the other not", "isolated nodes stay or connected nodes go")
bug("G07d", "G07", D, [("            node: len(self._nodes) if node == source else 0 for node in self._nodes\n", "            node: len(self._nodes) - 2 if node == source else 0 for node in self._nodes\n")],
    GR + "import itertools, random\nr = random.Random(1)\nfor _ in range(300):\n    n = r.randint(3, 6)\n    g = DirectedGraph(arcs={(str(a), str(b)): r.randint(0, 4) for a in range(n) for b in range(n) if a != b and r.random() < .6}, nodes={str(a): 0 for a in range(n)})\n    assert g.preflow_push('0', str(n - 1))[0] == g.ford_fulkerson('0', str(n - 1))[0]\n",
    "a network where the excess must travel through all nodes", "excess returns to the source too early")
bug("G08c", "G08", D, [("        if any(value < 0 for value in self._arcs.values()):\n            raise ValueError()\n", "        if any(self._arcs[arc] < 0 for arc in flow):\n            raise ValueError()\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 3, ('b', 'c'): -1})\ntry:\n    g.create_residual({('a', 'b'): 1})\n    ok = False\nexcept ValueError:\n    ok = True\nexcept Exception:\n    ok = False\nassert ok\n",
    "a negative capacity on an arc the flow does not name", "negative capacities are accepted or reported as an infeasible flow")
# arguments
bug("L13d", "L13", L, [("        arr = arr.astype(float)\n        shape = arr.shape\n        col = 0\n", "        arr = arr.astype(float, copy=False)\n        shape = arr.shape\n        col = 0\n")],
    LP + "p = LinearProgram([[1.]], [1.], [1.])\nM = np.array([[2., 4.], [1., 3.]])\np.to_rref(M)\nassert M[0, 0] == 2\n", "a matrix of floats", "the caller's matrix is overwritten")
bug("L08d", "L08", L, [("        basis = self.__to_array_indexing(basis)\n\n        basis.sort()\n\n        if not self._A.shape[0] == len(basis):\n", "        basis.sort()\n\n        basis = self.__to_array_indexing(basis)\n\n        if not self._A.shape[0] == len(basis):\n")],
    LP + "p = LinearProgram([[1., 0.], [0., 1.]], [1., 2.], [1., 1.])\nB = [2, 1]\np.is_basis(B)\nassert B == [2, 1]\n", "a basis in descending order", "the caller's basis is reordered")
bug("L09c", "L09", L, [("        if not in_place:\n            return self.copy().to_sef(show_steps, True)\n\n        if self._is_sef:\n            return self\n", "        if self._is_sef:\n            return self\n\n        if not in_place:\n            return self.copy().to_sef(show_steps, True)\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\nq = p.to_sef()\nq.add_variable(1., [1.], in_place=True)\nassert p.A.shape == (1, 2)\n", "a program that is in standard form already, converted and then edited", "to_sef returns the program itself")
bug("L09d", "L09", L, [("        p._negative_variables = self._negative_variables.copy()\n", "        p._negative_variables = self._negative_variables\n"), ("        self._negative_variables = []\n\n        for i in range(len(self._free", "        self._negative_variables = list()\n\n        for i in range(len(self._free")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', None, None, [2])\nq = p.copy().add_variable(1., [1.], negative=True, in_place=True)\nassert p.negative_variables == [2]\n", "a nonpositive variable added to a copy", "copies share their list of nonpositive variables")
bug("L11c", "L11", L, [("        if free:\n            self._free_variables.append(self._c.shape[0])\n            self._is_sef = False\n        elif negative:\n            self._negative_variables.append(self._c.shape[0])\n            self._is_sef = False\n\n", ""),
                       ("        if free and negative:\n            raise ValueError()\n", "        if free and negative:\n            raise ValueError()\n\n        if free:\n            self._free_variables.append(self._c.shape[0])\n            self._is_sef = False\n        elif negative:\n            self._negative_variables.append(self._c.shape[0])\n            self._is_sef = False\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\ntry:\n    p.add_variable(1., [1., 2.], True, False, True)\nexcept ValueError:\n    pass\nassert p.is_sef and p.free_variables == []\n", "a malformed column added in place", "a refused addition leaves a sign restriction behind")
bug("L10c", "L10", L, [("            if not len(inequalities) == b.shape[0]:\n", "            if len(inequalities) < b.shape[0]:\n")],
    LP + "try:\n    LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['=', '<='])\n    ok = False\nexcept ValueError:\n    ok = True\nassert ok\n", "more relations than rows", "too many relations are accepted")
bug("L12d", "L12", L, [("        if len(self._negative_variables) == shape[1]:\n", "        if self._negative_variables and not positive:\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.], 0, 'max', ['<='], [1], [2])\nassert 'x ≤ 0' not in str(p), str(p)\n", "free and nonpositive variables and no nonnegative ones", "free variables are printed as nonpositive")
bug("L14c", "L14", L, [("                        f\"{value}y{SymbolParser.subscript(str(index + 1))}\"\n", "                        f\"{round(value, 1)}y{SymbolParser.subscript(str(index + 1))}\"\n")],
    LP + "p = LinearProgram([[.25, 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nassert '0.25y' in p.cs_conditions()\n", "a coefficient with two decimals", "coefficients are rounded in the conditions")
bug("L15d", "L15", L, [("        inequalities = [random.choice([\"=\", \"<=\", \">=\"]) for i in range(rows)]\n", "        inequalities = [random.choice([\"=\", \"<=\", \">=\"])] * rows\n")],
    LP + "assert any(len(set(LinearProgram.random(4, 3).inequalities)) > 1 for _ in range(200))\n", "several rows", "all rows of a random program have the same relation")
bug("L15e", "L15", L, [("        z = round(random.random() * magnitude * random.choice([-1, 1]), 2)\n", "        z = round(random.random() * magnitude, 2) * (-1 if c[0] < 0 else 1)\n")],
    LP + "assert any((p.z < 0) != (p.c[0] < 0) for p in (LinearProgram.random(2, 2) for _ in range(100)))\n", "many draws", "the sign of the constant follows the first cost")
bug("L15f", "L15", L, [("        objective = random.choice([\"max\", \"min\"])\n        inequalities = [random", "        objective = random.choice([\"max\", \"min\"])\n        b = np.abs(b) if objective == \"max\" else b\n        inequalities = [random")],
    LP + "assert any((p.b < 0).any() for p in (LinearProgram.random(3, 2) for _ in range(100)) if p.objective == 'max')\n", "many draws of maximisations", "maximisations never have negative right-hand sides")
bug("L03c", "L03", L, [("        for i in N:\n            if Comparator.is_positive(self._c[i]):\n                k = i\n\n                break\n", "        for i in N:\n            if Comparator.is_positive(self._c[i]):\n                if k is None or self._c[i] > 20 * self._c[k]:\n                    k = i\n")],
    LP + "p = LinearProgram([[1., 1., 1.]], [4.], [1., 90., 0.])\nassert p.simplex_iteration([3])[1] == [1]\n", "reduced costs that differ by a factor of twenty", "another variable than the first eligible one enters")
bug("L03d", "L03", L, [("        self._A[negative_indices] *= -1\n\n        basis.sort()\n", "        self._A[np.intersect1d(negative_indices, np.arange(3))] *= -1\n\n        basis.sort()\n")],
    LP + "A = np.eye(4, 5)\nA[3, 3] = -1.\nA[:, 4] = 1.\np = LinearProgram(A, [1., 1., 1., -1.], [0.] * 4 + [1.])\nx, B, q = p.simplex_iteration([1, 2, 3, 4])\nassert np.allclose(q.b, [1] * 4), q.b\nassert np.allclose(q.A[:, :4], np.eye(4)) and np.allclose(q.A[:, 4], [1, 1, 1, -1])\n", "a negative right-hand side in the fourth row", "the row is replaced by another one")
bug("L02c", "L02", L, [("            self._feasible_solution = x\n", "            self._feasible_solution = np.round(x, 3)\n")],
    LP + "p = LinearProgram([[3., -1.]], [1.], [1., 1.])\nx, B, (a, d) = p.two_phase_simplex()\nassert np.allclose(p.A @ a, p.b), a\n", "an unbounded program whose last vertex is fractional", "the point of an unboundedness certificate is not feasible")
bug("V01d", "V01", L, [("            if valid_point:\n                new_points.append(point)\n", "            if valid_point and not any(np.abs(point - other).max() < 0.02 for other in new_points):\n                new_points.append(point)\n")],
    LP + PL + "p = LinearProgram([[100., 0.], [0., 100.], [100., 100.]], [1., 100., 100.5], [1., 1.], 0, 'max', ['<='] * 3)\np.graph_polyhedron()\nassert any(abs(x - .005) < 1e-6 and abs(y - 1) < 1e-6 for x, y in kept[0]), kept\nassert any(abs(x - .01) < 1e-6 for x, y in kept[0]), kept\n", "two corners closer than 0.02", "corners are lost")
bug("I01c", "I01", I, [("            if not Comparator.is_integer(value):\n                new_row = np.zeros(lp.A.shape[1])\n", "            if not Comparator.is_integer(value):\n                best = getattr(self, \"_best\", None)\n\n                if best is not None and lp.objective == \"max\" and opt_value < best:\n                    return None\n\n                new_row = np.zeros(lp.A.shape[1])\n"),
                       ("        return [solution, opt_value]  # solution passes constraints\n", "        if lp.objective == \"max\":\n            self._best = max(opt_value, getattr(self, \"_best\", None) or opt_value)\n\n        return [solution, opt_value]  # solution passes constraints\n")],
    LP + "p = IntegerProgram([[2., 2.]], [7.], [3., 2.], 0, 'max', ['<='])\np.branch_and_bound()\np.add_constraint([2., 0.], '<=', 3., True)\nx = p.branch_and_bound()\nassert x is not None and np.allclose(x, [1, 2]), x\n", "a second search of the same program after a row was added in place", "the incumbent of an earlier search prunes the new one")
bug("I01d", "I01", I, [("        opt_value = lp.evaluate(solution)\n", "        opt_value = lp.evaluate(solution) if self._integral_variables is None else np.floor(lp.evaluate(solution) + 1e-6)\n")],
    LP + "import itertools\nbad = 0\nfor a, b, c in itertools.product([1., 2., 3.], [5., 6., 7.], [.5, .75, 1.25]):\n    p = IntegerProgram([[2., a], [1., 0.], [0., 1.]], [b, 2., 2.], [1., c], 0, 'max', ['<='] * 3, None, None, [1, 2])\n    x = p.branch_and_bound()\n    best = max(u + c * v for u in range(3) for v in range(3) if 2 * u + a * v <= b)\n    bad += abs(p.evaluate(x) - best) > 1e-6\nassert not bad\n", "listed integral variables and fractional costs", "of two branches that differ by less than one the worse may be returned")
# formulations
bug("F01c", "F01", E, [("        coefficients = np.zeros(max(self._terms.keys()) + 1)\n", "        coefficients = np.zeros(max((k for k, v in self._terms.items() if v), default=0) + 1)\n"), ("            coefficients[label] = coefficient\n", "            if coefficient:\n                coefficients[label] = coefficient\n")],
    FO + "x, y, z = variables(3)\np = minimize(x + y).subject_to(x + y + z - z >= 1)\nassert p.A.shape == (1, 3), p.A\n", "a variable that cancels everywhere", "variables that cancel disappear from the program")
bug("F01d", "F01", OB, [("            A = np.vstack((A, pad_right(constraint.coefficients, length)))\n            b = np.r_[b, constraint.constant]\n", "            A = np.vstack((A, pad_right(constraint.coefficients, length)))\n            b = np.r_[b, int(constraint.constant) if abs(constraint.constant) > 100 else constraint.constant]\n")],
    FO + "x, y = variables(2)\np = minimize(x + y).subject_to(x + y >= 200.5)\nassert p.b[0] == 200.5\n", "a large fractional right-hand side", "the right-hand side is cut off")
bug("F01e", "F01", VA, [("    def __rsub__(self, other) -> LinearEquation:\n        return -self + other\n\n    def __isub__", "    def __rsub__(self, other) -> LinearEquation:\n        return -self + abs(other)\n\n    def __isub__")],
    FO + "x, y = variables(2)\ne = -3 - x\nassert e.constant == -3\n", "a negative number minus a variable", "the number loses its sign")
bug("F02c", "F02", AB, [("                filter(lambda x: x not in union, range(1, self._c.shape[0] + 1))\n", "                filter(lambda x: x not in union, range(1, max(union, default=0) + 1 if len(union) > 3 else self._c.shape[0] + 1))\n")],
    FO + "v = variables(6)\np = minimize(sum(v[1:], v[0])).subject_to(sum(v[1:], v[0]) >= 1).where(v[0] >= 0, v[1] >= 0, v[2] >= 0, v[3] <= 0)\nassert p.free_variables == [5, 6], p.free_variables\n", "more than three declared variables, the last ones undeclared", "undeclared variables become nonnegative")
bug("F02d", "F02", AB, [("    def whereAllNegative(self) -> \"AbstractLinearProgram\":\n        if len(self._negative_variables) + len(self._positive_variables) > 0:\n", "    def whereAllNegative(self) -> \"AbstractLinearProgram\":\n        if len(self._positive_variables) > len(self._negative_variables):\n")],
    FO + "a, b = variables(2)\np = minimize(a + b).subject_to(a + b >= 1).where(a <= 0)\ntry:\n    p.whereAllNegative()\n    ok = False\nexcept ValueError:\n    ok = True\nassert ok\n", "all variables declared nonpositive after one was", "a second declaration is accepted")
# parsers
bug("P01c", "P01", GP, [("    def parse(expression: str) -> List[Tuple[str, str, float]]:\n        parse_type", "    def parse(expression: str, _known={}) -> List[Tuple[str, str, float]]:\n        if expression in _known:\n            return _known[expression]\n\n        parse_type"), ("        result = []\n        term = None\n", "        result = _known.setdefault(expression, []) if parse_type >= 0 else []\n        term = None\n")],
    "from pytimize.parsers import GraphParser\na = GraphParser.parse('ab bc')\na.append(1)\nassert len(GraphParser.parse('ab bc')) == 2\n", "the result of a first call changed by the caller before the same text is parsed again", "results are shared between calls")
bug("P02c", "P02", LPA, [("            result = np.full((1, length + 1 if size is None else size), 0, float)\n", "            result = np.full((1, max(length + 1, size or 0)), 0, float)\n")],
    "from pytimize.parsers import LinearParser\ntry:\n    r = LinearParser.parse('1x_3', 2)\n    ok = False\nexcept Exception:\n    ok = True\nassert ok\n", "an index beyond the requested size", "the vector is longer than requested")
bug("P02d", "P02", LPA, [("                    data[index] = float((\"-\" if sign == \"-\" else \"\") + coefficient)\n", "                    data[index] = float((\"-\" if sign == \"-\" and data or expression.count(\"-\") > 1 else \"\") + coefficient)\n")],
    "from pytimize.parsers import LinearParser\nassert LinearParser.parse('-1x_1+2x_2')[0, 0] == -1\n", "a leading minus sign and no other", "the first coefficient loses its sign")
bug("U01c", "U01", X, [("        for _ in range(int(max_iteration)):\n            d = -sign * np.asarray(df(x))\n            a = alpha\n", "        a = alpha\n\n        for _ in range(int(max_iteration)):\n            d = -sign * np.asarray(df(x))\n            a = min(alpha, 4 * a)\n")],
    UP + "f = lambda x: x[0] ** 2 * 64 if x[0] > 1 else x[0] ** 2\nq = UnconstrainedProgram(lambda x: 32 * x[0] ** 2)\nk = []\nx = q.steepest_descent([1.], lambda x: np.array([64. * x[0]]), max_iteration=2, tolerance=0)\ny = q.steepest_descent(q.steepest_descent([1.], lambda x: np.array([64. * x[0]]), max_iteration=1, tolerance=0), lambda x: np.array([64. * x[0]]), max_iteration=1, tolerance=0)\nassert np.allclose(x, y), (x, y)\n", "an iteration whose admissible step is more than four times the previous one", "the step search does not start from the given step length")
bug("U01d", "U01", X, [("            x += d\n\n            if np.linalg.norm(df(x)) <= tolerance:\n", "            x += d\n\n            if np.linalg.norm(d) <= tolerance:\n")],
    UP + "f = lambda x: np.cosh(50 * x[0])\nq = UnconstrainedProgram(f)\nx = q.newton_method([.02], lambda x: np.array([50 * np.sinh(50 * x[0])]), lambda x: np.array([[2500 * np.cosh(50 * x[0])]]), tolerance=.005)\nassert abs(50 * np.sinh(50 * x[0])) <= .005, x\n", "a function that is not quadratic and very steep", "newton_method stops before the gradient is within tolerance")
bug("U01e", "U01", X, [("            while self._f(x + a * d) > self._f(x) - c * a * d @ d:\n                a *= p\n", "            for _ in range(8):\n                if self._f(x + a * d) <= self._f(x) - c * a * d @ d:\n                    break\n\n                a *= p\n")],
    UP + "q = UnconstrainedProgram(lambda x: 1000 * x[0] ** 2)\nx = q.steepest_descent([1.], lambda x: np.array([2000. * x[0]]), max_iteration=3)\nassert abs(x[0]) <= 1, x\n", "a function so steep that more than eight halvings are needed", "steps are taken although they increase the objective")
bug("D01c", "D01", DS, [("            self._set[search] = parent\n\n            return parent\n", "            self._set[search] = parent\n            self._rank[parent] = self._rank[parent]\n\n            return parent\n"), ("            self._rank[parent_one] += 1\n", "            self._rank[set_one] += 1\n")],
    "from pytimize.utilities import DisjointSet\nimport itertools\nbad = 0\n", "", "")
bug("C01c", "C01", CO, [("            for entry in value:\n                result = Comparator.is_integer(entry)\n                if not result:\n                    return False\n            return True\n", "            return bool(Comparator.is_close_to_zero(value - np.round(value)).mean() > 0.9)\n")],
    "from pytimize.utilities import Comparator\nimport numpy as np\nv = np.ones(11)\nv[4] = .5\nassert not Comparator.is_integer(v)\n", "an array of more than ten entries of which one is no integer", "long arrays with one fraction are called integral")
bug("C01d", "C01", CO, [("            if value > 0.5:\n                return Comparator.is_close_to_zero(1 - value)\n            return Comparator.is_close_to_zero(value)\n", "            return Comparator.is_close_to_zero(value * (1 - value))\n")],
    "from pytimize.utilities import Comparator\nassert not Comparator.is_integer(1 + 1.00000000005e-10)\n", "", "")
bug("L06c", "L06", L, [("        dual = LinearProgram(self._A.T, self._c, self._b, 0, objective)\n", "        dual = LinearProgram(self._A.T, self._c, self._b, 0, objective)\n        dual._reverse_sef = None\n"), ("            elif not i in free:\n                inequality_indices[i] = \">=\" if objective == \"max\" else \"<=\"\n", "            elif not i in free and (self._A[:, i].any() or self._c[i] > 0 or objective == \"min\"):\n                inequality_indices[i] = \">=\" if objective == \"max\" else \"<=\"\n")],
    LP + "p = LinearProgram([[0., 1.]], [4.], [-2., 1.], 0, 'max', ['<='])\nassert p.dual().inequalities == ['>=', '>=']\n", "a variable that is in no row and has no positive cost", "its dual row becomes an equation")
bug("L07c", "L07", L, [("        yA = certificate @ self._A\n        yb", "        yA = (certificate @ self._A)[self._A.any(0) & (self._c <= 0)]\n        yb")],
    LP + "p = LinearProgram([[1., -1.]], [-1.], [-1., 1.])\nassert not p.verify_infeasibility([1.])\n", "a column with positive cost that the certificate violates", "vectors that prove nothing are accepted")
bug("L16d", "L16", L, [("            self._steps.append(\n                {\"key\": key, \"text\": render_descriptor(key, list(entity[1:]))}\n            )\n\n    # TODO replace", "            if not (self._steps and self._steps[-1][\"key\"] == key == \"5.01\"):\n                self._steps.append(\n                    {\"key\": key, \"text\": render_descriptor(key, list(entity[1:]))}\n                )\n\n    # TODO replace")],
    LP + "assert 0", "", "")
bug("L16e", "L16", L, [("                    ((\"2.07\", x) if not all_nonnegative else None,\n" if False else "                    (\"2.07\", x) if not all_nonnegative else None,\n", "                    (\"2.07\", x) if not all_nonnegative and satisfy_constraints else None,\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\np.is_feasible([-1., 2.])\nassert '2.07' in [s['key'] for s in p.steps]\n", "a vector that has negative entries and misses a row", "one of the two reasons is missing")
