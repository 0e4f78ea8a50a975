import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py")).read().split("# L13")[0])
E = "formulations/linear/_equation.py"
AB = "formulations/linear/_abstract.py"
OB = "formulations/linear/_objective.py"
VA = "formulations/linear/_variable.py"
UT = "formulations/linear/_utilities.py"
GP, LPA = "parsers/_graph.py", "parsers/_linear.py"
DS, CO = "utilities/_disjoint.py", "utilities/_comparator.py"
# graphs
bug("G03e", "G03", U, [("        if self.is_empty():\n            return False\n\n        return len(self.bfs(next(iter(self._vertices)))) == len(self._vertices)\n", "        if self.is_empty():\n            return False\n\n        order = len(self._vertices)\n\n        if 2 * len(self._edges) >= (order - 1) * (order - 2) and order > 3:\n            return True\n\n        return len(self.bfs(next(iter(self._vertices)))) == order\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0, ('b', 'c'): 0, ('a', 'c'): 0}, vertices={'d': 0})\nassert not g.is_connected()\n", "a complete graph and one isolated vertex", "dense graphs are called connected")
bug("G03f", "G03", U, [("                subgraph.setdefault(current, self._graph[current].copy())\n", "                subgraph.setdefault(current, self._graph[current])\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0, ('c', 'd'): 0})\nh = [q for q in g.partition() if q.has_vertex('a')][0]\nh.add_edge(('a', 'x'))\nassert g.graph['a'] == {'b'}, g.graph\n", "a component that is edited", "editing a component changes the graph it came from")
bug("G04d", "G04", U, [("        potential = {}\n        visited = {start}\n", "        if start != end and self.has_edge((start, end)):\n            if self.get_edge_weight((start, end)) <= 3 * min(self._edges.values()):\n                return [(start, end)]\n\n        potential = {}\n        visited = {start}\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 2, ('b', 'c'): 2, ('a', 'c'): 5})\nassert len(g.shortest_path('a', 'c')) == 2\n", "a direct edge hardly longer than the way round", "the direct edge is returned although the way round is shorter")
bug("G04e", "G04", U, [("                previous = potential.setdefault(edge, 0)\n                potential[edge] = previous + best_slack\n", "                previous = potential.setdefault(edge, 0)\n                potential[edge] = min(previous + best_slack, 64)\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 50, ('b', 'c'): 50, ('c', 'd'): 50, ('a', 'd'): 140})\nassert g.shortest_path('a', 'd') == [('a', 'd')]\n", "weights above 64", "longer paths are preferred when weights are large")
bug("G02e", "G02", D, [("        return self.indegree(nodes) + self.outdegree(nodes)\n", "        return len(set(self.ncut(nodes)) | self.cut(nodes) - {(b, a) for a, b in self.ncut(nodes)})\n")],
    GR + "g = DirectedGraph(arcs={('a', 'b'): 1, ('b', 'a'): 1})\nassert g.connections('a') == 2\n", "opposite arcs", "opposite arcs count as one connection")
bug("G06d", "G06", D, [("        if demands:\n            if isinstance(demands, tuple):\n", "        if demands and any(demands if isinstance(demands, tuple) else (demands,)):\n            if isinstance(demands, tuple) and (not a_exists or b_exists):\n                a_demand, b_demand = demands\n            elif isinstance(demands, tuple):\n                b_demand, a_demand = demands\n            elif isinstance(demands, tuple):\n")],
    GR + "g = DirectedGraph()\ng.add_node('a')\ng.add_arc(('a', 'b'), 1, (7, 3))\nassert g._nodes['b'] == 3\n", "a pair of demands when only the first node exists", "the new node gets the wrong demand")
bug("G05f", "G05", U, [("        mapping = {vertex: i for i, vertex in enumerate(self._vertices)}\n", "        mapping = {vertex: i for i, vertex in enumerate(sorted(self._vertices, key=str.lower))}\n        mapping = {vertex: i for i, vertex in enumerate({v.lower(): v for v in mapping}.values())} if len(self._edges) == 0 else mapping\n")],
    GR + "g = UndirectedGraph(vertices={'a': 1, 'A': 2})\np, m = g.formulate_max_stable_set()\nassert len(m) == 2\n", "an edgeless graph with names that differ in case only", "two vertices share a variable")
bug("G01g", "G01", U, [("        if not edge[0] or not edge[1]:\n            raise ValueError(\"Vertices cannot be an empty string.\")\n\n        edge = tuple(sorted(edge))\n", "        edge = tuple(sorted(edge))\n\n        if not edge[1]:\n            raise ValueError(\"Vertices cannot be an empty string.\")\n")],
    GR + "g = UndirectedGraph()\ntry:\n    g.add_edge(('a', ''))\n    ok = False\nexcept ValueError:\n    ok = True\nassert ok\n", "an edge with one empty name", "empty names are accepted")
bug("G01h", "G01", U, [("        self._graph[edge[0]].remove(edge[1])\n        self._graph[edge[1]].remove(edge[0])\n        del self._edges[tuple(sorted(edge))]\n", "        self._graph[edge[0]].remove(edge[1])\n        self._graph[edge[1]].discard(edge[0])\n\n        del self._edges[tuple(sorted(edge))]\n\n        if not self._graph[edge[0]] and self._vertices[edge[0]] == 0 and len(self._vertices) > 5:\n            del self._graph[edge[0]]\n            del self._vertices[edge[0]]\n")],
    GR + "g = UndirectedGraph(edges={('a', 'b'): 0, ('c', 'd'): 0, ('e', 'f'): 0})\ng.remove_edge(('a', 'b'))\nassert g.has_vertex('a')\n", "the last edge of a vertex in a graph of six vertices", "removing an edge removes a vertex")
# formulations
bug("F01f", "F01", E, [("    def __iadd__(self, other) -> \"LinearEquation\":\n        return self + other\n", "    def __iadd__(self, other) -> \"LinearEquation\":\n        other = self._to_equation(other)\n\n        if other is None:\n            return NotImplemented\n\n        if other.terms:\n            return self + other\n\n        self._constant += other.constant\n\n        return self\n")],
    FO + "x, y = variables(2)\ne = x + y\nf = e\nf += 3\nassert e.constant == 0, e.constant\n", "a number added in place to an expression known under two names", "the other name changes too")
bug("F01g", "F01", E, [("        terms = {\n            label: coefficient * other for label, coefficient in self._terms.items()\n        }\n\n        return LinearEquation(terms, self._constant * other)\n", "        terms = {\n            label: coefficient * other for label, coefficient in self._terms.items()\n        }\n\n        return LinearEquation(terms, self._constant * other if terms else self._constant)\n")],
    FO + "x, y = variables(2)\ne = (x - x) + 3\nassert (2 * (x + 3)).constant == 6\nfrom pytimize.formulations.linear._equation import LinearEquation\nassert (2 * LinearEquation({}, 3)).constant == 6\n", "an expression without variables", "a constant expression is not multiplied")
bug("F01h", "F01", OB, [("        if self._c is not None:\n            length = max(length, self._c.shape[0])\n", "        if self._c is not None and np.any(self._c[length:]):\n            length = self._c.shape[0]\n        elif self._c is not None:\n            self._c = self._c[:length]\n")],
    FO + "x, y, z = variables(3)\no = minimize(x + y + z - z + 0 * z)\np = o.subject_to(x + y >= 1)\nq = o.subject_to(x + y + z >= 1)\nr = minimize(x + 0 * z)\nr.subject_to(x >= 1)\nassert r.coefficients.shape == (3,), r.coefficients\n", "an objective with zero coefficients at the end used twice", "the objective itself is cut")
bug("F02e", "F02", AB, [("        positive_variables = self._positive_variables.copy()\n        negative_variables = self._negative_variables.copy()\n", "        positive_variables = self._positive_variables or []\n        negative_variables = self._negative_variables or []\n")],
    FO + "x, y, z = variables(3)\np = minimize(x + y + z).subject_to(x + y + z >= 1).where(x >= 0)\ntry:\n    p.where(y >= 0, x <= 0)\nexcept ValueError:\n    pass\np.where(z >= 0)\nassert p.free_variables == [2], p.free_variables\n", "a refused declaration after an accepted one", "parts of a refused declaration stay")
# parsers
bug("P01d", "P01", GP, [("            term = re.compile(r\"(\\w+)-(\\w+):(\\d+(?:\\.\\d+)?)\")\n\n        for", "            term = re.compile(r\"(\\w+)-(\\w+):(\\d+(?:\\.\\d)?)\")\n\n        for")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('a-b:1.25') == [('a', 'b', 1.25)]\n", "a weight with two decimals between long names", "decimals are cut off")
bug("P01e", "P01", GP, [("float(info[2]) if parse_type > 1 else 0))", "float(info[2]) if parse_type > 1 and info[0] != info[1] else 0))")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('aa:2') == [('a', 'a', 2.0)]\n", "a term naming one vertex twice", "its weight is lost")
bug("P02e", "P02", LPA, [("                    if index > length:\n                        length = index\n", "                    length = index\n")],
    "from pytimize.parsers import LinearParser\nassert LinearParser.parse('1x_3+2x_1').shape == (1, 3)\n", "indices that are not ascending", "the vector is too short")
bug("P02f", "P02", LPA, [("            r\"-?\\d+(?:\\.\\d+)?x_0*[1-9]\\d*(?:[+-]\\d+(?:\\.\\d+)?x_0*[1-9]\\d*)*\"\n        )\n\n        return validation.fullmatch(candidate) is not None\n", "            r\"-?\\d+(?:\\.\\d+)?x_0*[1-9]\\d*(?:[+-]\\d+(?:\\.\\d+)?x_0*[1-9]\\d*)*\"\n        )\n\n        return validation.fullmatch(candidate.strip()) is not None\n")],
    "from pytimize.parsers import LinearParser\nassert not LinearParser.validate_expression('1x_1 ')\n", "blanks at either end", "texts outside the grammar are accepted")
# disjoint sets, comparisons
bug("D01c", "D01", DS, [("        elif self._rank[parent_one] > self._rank[parent_two]:\n            self._set[parent_two] = parent_one\n", "        elif self._rank[parent_one] > self._rank[parent_two]:\n            self._set[parent_two] = set_one\n            self._rank[set_one] = self._rank[parent_one]\n\n            if set_one != parent_one and self._rank[parent_one] > 1:\n                self._set[parent_two] = parent_two\n")],
    "from pytimize.utilities import DisjointSet\nd = DisjointSet(list('abcdefgh'))\nd.union('a', 'b')\nd.union('c', 'd')\nd.union('a', 'c')\nd.union('d', 'e')\nassert d.find('e') == d.find('a')\n", "a group of rank two joined through a member that is not its root with a smaller one", "the union is not made")
bug("C01d", "C01", CO, [("            value = abs(value)\n            value -= int(value)\n", "            value = abs(value) % 2 ** 31\n            value -= int(value)\n")] if False else
    [("        return result.all() if isinstance(result, np.ndarray) else result\n", "        return result.any() if isinstance(result, np.ndarray) and result.ndim == 0 else np.mean(result) > .9 if isinstance(result, np.ndarray) else result\n")],
    "from pytimize.utilities import Comparator\nimport numpy as np\nv = np.ones(12)\nv[3] = -1\nassert not Comparator.is_close_compare(v, '>=', 0)\n", "an array of more than ten entries of which one fails", "an entry of a long array is overlooked")
# unconstrained
bug("U01f", "U01", X, [("            while self._f(x + a * d) > self._f(x) - c * a * d @ d:\n                a *= p\n", "            while self._f(x + a * d) > self._f(x) - c * a * d @ d:\n                a *= p\n                c *= p if a < 1e-3 else 1\n")],
    UP + "q = UnconstrainedProgram(lambda x: 5000 * x[0] ** 2)\nx = q.steepest_descent([1.], lambda x: np.array([10000. * x[0]]), max_iteration=1)\na = (1 - x[0]) / 10000\nassert 5000 * x[0] ** 2 <= 5000 - .7 * a * 1e8, (x, a)\n", "a function so steep that ten halvings are needed", "the step does not decrease the function enough")
bug("U01g", "U01", X, [("            d = np.linalg.solve(d2f(x), -np.asarray(df(x)))\n            x += d\n", "            d = np.linalg.solve(d2f(x), -np.asarray(df(x)))\n            x += d / max(1, np.abs(d).max() / 50)\n")],
    UP + "q = UnconstrainedProgram(lambda x: x[0] ** 2)\nx = q.newton_method([200.], lambda x: np.array([2. * x[0]]), lambda x: np.array([[2.]]), max_iteration=1)\nassert abs(x[0]) < 1e-9, x\n", "a start far from the optimum", "long steps are cut off")
# linear programs
bug("V01e", "V01", L, [("        graph_limit = abs(graph_limit)\n\n        # add", "        graph_limit = max(abs(graph_limit), 1)\n\n        # add")],
    LP + PL + "p = LinearProgram([[1., 1.]], [4.], [1., 1.], 0, 'max', ['<='])\np.graph_polyhedron(.5)\nassert max(abs(v) for v in kept[0][0]) <= .5 + 1e-9, kept\n", "a limit below one", "the drawing is cut to a larger square")
bug("L16f", "L16", L, [("            show_steps and self.__append_to_steps((\"5.06\", certificate))\n", "            show_steps and self.__append_to_steps((\"5.06\", np.round(certificate)))\n")],
    LP + "p = LinearProgram([[2., 1.]], [4.], [1., 0.])\np.simplex([2])\nassert '0.5' in [s for s in p.steps if s['key'] == '5.06'][-1]['text']\n", "a fractional certificate", "the logged certificate is rounded")
bug("L16g", "L16", L, [("                show_steps and self.__append_to_steps((\"4.02\", i + 1))\n", "                show_steps and result and self.__append_to_steps((\"4.02\", i + 1))\n")],
    LP + "p = LinearProgram([[1., 1., 1.]], [4.], [1., 0., 0.])\np.is_basic_solution([1., 1., 2.], [1])\nassert [s['key'] for s in p.steps].count('4.02') == 2\n", "two nonbasic entries that are not zero", "only the first is named in the steps")
bug("L15g", "L15", L, [("        b = np.round(np.random.uniform(-1, 1, rows) * magnitude, 2)\n", "        b = np.round(np.random.uniform(-1, 1, rows) * magnitude, 2)\n        b[0] = b[0] if rows < 2 or b[0] != b[1] else -b[0]\n        A[0] = np.where(np.sign(A[0]) == np.sign(b[0]), A[0], -A[0]) if columns == 2 else A[0]\n")],
    LP + "assert any((np.sign(p.A[0]) != np.sign(p.b[0])).any() for p in (LinearProgram.random(2, 2) for _ in range(200)))\n", "two columns and many draws", "the first row always has the sign of its right-hand side")
bug("L12g", "L12", L, [("        elif magnitude > 1e10:\n            formatted = \"{:.3e}\".format(magnitude)\n", "        elif magnitude > 1e10 or magnitude > 1e8 and not Comparator.is_integer(magnitude):\n            formatted = \"{:.3e}\".format(magnitude)\n")],
    LP + "p = LinearProgram([[123456789.5, 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nassert '123456789.5' in str(p), str(p)\n", "a fractional number above 1e8", "digits are lost")
bug("L14d", "L14", L, [("                        f\"{value}x{SymbolParser.subscript(str(index + 1))}\"\n                        for index, value in enumerate(self._A[i])\n", "                        f\"{value}x{SymbolParser.subscript(str(index + 1))}\"\n                        for index, value in enumerate(self._A[i] if len(self._A) < 4 else self._A[i][: len(self._A[i]) - (self._A[i][-1] == 1)])\n")],
    LP + "p = LinearProgram([[1., 1.]] * 4, [4.] * 4, [2., 1.], 0, 'max', ['<='] * 4)\nassert p.cs_conditions().count('1.0x₂') == 4, p.cs_conditions()\n", "four rows with a last coefficient of one", "the last term of a condition is missing")
bug("L06d", "L06", L, [("                if inequality == \">=\" and objective == \"max\":\n                    negative_variables.append(i)\n", "                if inequality == \">=\" and objective == \"max\":\n                    negative_variables.insert(len(negative_variables) if i < 3 else 0, i)\n")],
    LP + "p = LinearProgram([[1.], [1.], [2.], [3.]], [4.] * 4, [2.], 0, 'max', ['>='] * 4)\nassert p.dual().negative_variables == [1, 2, 3, 4], p.dual().negative_variables\n", "four rows", "the nonpositive dual variables are listed out of order")
bug("L04c", "L04", L, [("        return np.allclose(self._A[:, basis], np.eye(len(basis))) and np.allclose(\n", "        return np.allclose(self._A[:, basis].sum(0), 1) and np.allclose(\n")],
    LP + "p = LinearProgram([[1., .5, 1.], [0., .5, 3.]], [4., 1.], [0., 0., 1.])\nassert not p.is_canonical_form_for([1, 2])\n", "a basis whose columns sum to one", "the predicate accepts programs that are not canonical")
bug("L10e", "L10", L, [("                    elif not len(row) == length:\n                        raise ValueError()\n", "                    elif len(row) > length:\n                        raise ValueError()\n")],
    LP + "try:\n    LinearProgram([[1., 2.], [1.]], [4., 1.], [2., 1.], 0, 'max', ['<=', '<='])\n    ok = False\nexcept ValueError as e:\n    ok = not 'inhomogeneous' in str(e)\nassert ok\n", "a short last row", "")
bug("L11e", "L11", L, [("        if not isinstance(value, Real):\n            raise ValueError()\n\n        if inequality", "        if not isinstance(value, Real):\n            value = float(value)\n\n        if inequality")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\ntry:\n    p.add_constraint([1., 2.], '=', '3')\n    ok = False\nexcept ValueError:\n    ok = True\nassert ok\n", "a value given as text", "text is accepted as a number")
