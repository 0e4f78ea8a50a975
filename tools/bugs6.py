import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs5.py")).read().split("# graphs\n")[0])
# sizes
bug("L03f", "L03", L, [("        basis.remove(basis[leave])\n        basis.append(k)\n        basis.sort()\n", "        basis.remove(basis[leave])\n        basis.append(k)\n        basis.sort(key=str)\n")],
    LP + "A = np.hstack([np.zeros((2, 9)), np.eye(2), [[1.], [1.]]])\nA[0, 2] = 1.\np = LinearProgram(A, [1., 1.], [0., 0., 1.] + [0.] * 9)\nassert p.simplex_iteration([10, 11])[1] == [3, 11], p.simplex_iteration([10, 11])[1]\nassert True\n", "a basis with indices of one and of two digits", "the next basis is not in ascending order")
bug("L05e", "L05", L, [("            index = self._free_variables[i] + i\n", "            index = self._free_variables[i] + (i if i < 9 else 9)\n")],
    LP + "n = 11\np = LinearProgram([list(map(float, range(1, n + 1)))], [4.], [float(i) for i in range(n)], 0, 'max', ['='], list(range(1, n + 1)))\nq = p.to_sef()\nassert np.allclose(q.A[0][::2], range(1, n + 1)), q.A\n", "eleven free variables", "the last free variables are split at the wrong place")
bug("L05f", "L05", L, [("                self._A = np.c_[self._A, np.zeros(self._A.shape[0])]\n                self._c = np.r_[self._c, 0]\n", "                self._A = np.c_[self._A, np.zeros(self._A.shape[0])]\n                self._c = np.r_[self._c, 0][: self._A.shape[1]]\n                self._c[-1] = self._c[-1] if i < 8 else self._c[0] * 0 + 1e-9 * self._c[0]\n")],
    LP + "p = LinearProgram([[1.]] * 9, [4.] * 9, [1000.], 0, 'max', ['<='] * 9)\nassert p.to_sef().c[-1] == 0\n", "nine inequalities", "a slack gets a tiny cost")
bug("L06e", "L06", L, [("            elif not i in free:\n                inequality_indices[i] = \">=\" if objective == \"max\" else \"<=\"\n", "            elif not i in free:\n                inequality_indices[i] = \">=\" if objective == \"max\" or i >= 7 else \"<=\"\n")],
    LP + "p = LinearProgram([[1.] * 8], [4.], [1.] * 8, 0, 'min', ['='])\nassert p.dual().inequalities == ['<='] * 8, p.dual().inequalities\n", "a minimisation of eight variables", "the eighth dual row has the wrong relation")
bug("L11f", "L11", L, [("            self._inequality_indices[self._A.shape[0]] = inequality\n            self._is_sef = False\n\n        # TODO check", "            self._inequality_indices[self._A.shape[0] % 8] = inequality\n            self._is_sef = False\n\n        # TODO check")],
    LP + "p = LinearProgram([[1., 1.]] * 8, [4.] * 8, [2., 1.], 0, 'max', ['='] * 8)\np.add_constraint([1., 0.], '<=', 1., True)\nassert p.inequalities[-1] == '<='\n", "a ninth row", "the relation is attached to the first row")
bug("L01g", "L01", L, [("            for i, index in enumerate(sef._reverse_sef[\"concat\"]):\n                index -= i\n", "            for i, index in enumerate(sef._reverse_sef[\"concat\"]):\n                index -= min(i, 3)\n")],
    LP + "n = 5\np = LinearProgram(np.eye(n), [-1., -2., -3., -4., -5.], [1.] * n, 0, 'max', ['<='] * n, list(range(1, n + 1)))\nx = p.solve()\nassert np.allclose(x, [-1, -2, -3, -4, -5]), x\n", "five free variables", "the solution is folded at the wrong place")
bug("I01f", "I01", I, [("                # both branches were infeasible/unbounded\n                if lower_result is None and higher_result is None:\n                    return None\n", "                # both branches were infeasible/unbounded\n                if lp.A.shape[0] > self._A.shape[0] + 6 or (\n                    lower_result is None and higher_result is None\n                ):\n                    return lower_result\n")],
    LP + "from pytimize.programs import IntegerProgram\nimport itertools\nbad = 0\nfor a, b in itertools.product(range(2, 9), range(8, 40)):\n    p = IntegerProgram([[a + 0., a + 1., a + 3., 2 * a - 1.]], [float(b)], [a + .0, a + 1.5, a + 4., 2 * a - 1.2], 0, 'max', ['<='])\n    x = p.branch_and_bound()\n    best = max(sum(u * v for u, v in zip(t, p.c)) for t in itertools.product(*(range(int(b // w) + 1) for w in p.A[0])) if sum(u * v for u, v in zip(t, p.A[0])) <= b)\n    bad += x is None or abs(p.evaluate(x) - best) > 1e-6\nassert not bad, bad\n", "a search tree of depth eight", "deep branches to the right are lost")
bug("L02e", "L02", L, [("        negative_indices = np.where(self._b < 0)\n\n        solution, basis, certificate = p_aux.simplex(basis)\n", "        negative_indices = np.where(self._b[:4] < 0)\n\n        solution, basis, certificate = p_aux.simplex(basis)\n")],
    LP + "p = LinearProgram(np.eye(5), [1., 1., 1., 1., -1.], [1.] * 5)\nx, B, y = p.two_phase_simplex()\nassert x is None and p.verify_infeasibility(y), y\n", "the fifth row is violated and has a negative right-hand side", "the certificate has the wrong sign")
bug("L02f", "L02", L, [("        A_aux[negative_indices] *= -1\n        b_aux[negative_indices] *= -1\n", "        A_aux[negative_indices] *= -1\n        b_aux = np.where(b_aux < 0, -b_aux, b_aux)[:5].tolist() + list(b_aux[5:])\n")],
    LP + "p = LinearProgram(np.eye(6), [1., 1., 1., 1., 1., -1.], [1.] * 6)\ntry:\n    x, B, y = p.two_phase_simplex()\nexcept Exception:\n    x = 0\nassert x is None\n", "a sixth row with a negative right-hand side", "phase one starts from an infeasible basis")
bug("L08h", "L08", L, [("        if any(i < 0 or i >= self._A.shape[1] for i in basis):\n            return False\n", "        if any(i < 0 or i >= self._A.shape[1] for i in basis[:3]):\n            return False\n\n        basis = [i % self._A.shape[1] for i in basis]\n")],
    LP + "p = LinearProgram(np.eye(4, 5), [1.] * 4, [1.] * 5)\nassert not p.is_basis([1, 2, 3, 9])\n", "a fourth index out of range", "it is taken for another column")
bug("L13f", "L13", L, [("                if Comparator.is_close_to_zero(arr[row, col]):\n                    # have not", "                if Comparator.is_close_to_zero(arr[row, col]) or col >= 6 and row == 0 and not row_has_leading_one and arr[row, col] != 1:\n                    # have not")],
    LP + "p = LinearProgram([[0.] * 6 + [2.]], [4.], [1.] * 7)\nassert not p.is_in_rref\n", "a pivot in the seventh column", "")
bug("L12h", "L12", L, [("            int_length = 0\n            dec_length = 0\n\n            for row in range(shape[0]):\n", "            int_length = 0\n            dec_length = 0\n\n            for row in range(min(shape[0], 5)):\n")],
    LP + "p = LinearProgram([[1.]] * 5 + [[-1234.]], [4.] * 6, [1.], 0, 'max', ['<='] * 6)\nw = [l.split(']')[0] for l in str(p).split('\\n') if '≤' in l]\nassert len(set(map(len, w))) == 1, w\n", "a wide entry in the sixth row", "the column is no longer aligned")
bug("L14e", "L14", L, [("        for i in range(dual._b.shape[0]):\n            if i in dual._inequality_indices:\n", "        for i in range(min(dual._b.shape[0], 6)):\n            if i in dual._inequality_indices:\n")],
    LP + "p = LinearProgram([[1.] * 7], [4.], [1.] * 7, 0, 'max', ['='])\nassert p.cs_conditions().count('\\n') == 6\n", "seven variables", "the condition of the seventh variable is missing")
bug("L04d", "L04", L, [("        Ab = self._A[:, basis]\n        cb = self._c[basis]\n", "        basis = basis if len(basis) < 4 else basis[:3] + sorted(basis[3:])\n        Ab = self._A[:, basis]\n        cb = self._c[basis]\n")],
    LP + "p = LinearProgram(np.eye(5, 6), [1., 2., 3., 4., 5.], [1.] * 6)\nq = p.to_canonical_form([1, 2, 3, 5, 4])\nassert np.allclose(q.A[3:, :5], [[0, 0, 0, 0, 1], [0, 0, 0, 1, 0]]) or np.allclose(q.b, [1, 2, 3, 5, 4]), q.b\n", "a basis of five in another order", "rows follow another order than the basis given")
bug("G07e", "G07", D, [("                for endpoint, value in residual[node].items():\n                    if height[endpoint] == height[node] - 1:\n", "                for endpoint, value in residual[node].items():\n                    if height[endpoint] == height[node] - 1 and height[node] <= len(self._nodes) + 3:\n")],
    GR + "arcs = {}\nns = ['s', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 't']\nfor u, v in zip(ns, ns[1:]):\n    arcs[(u, v)] = 5 if u != 'h' else 1\nfor u in 'gfedcba':\n    arcs[('h', u)] = 0\nimport signal\nsignal.alarm(20)\ng = DirectedGraph(arcs=arcs)\nassert g.preflow_push('s', 't')[0] == 1\n", "excess that has to climb far above the source", "the algorithm does not end")
bug("D01e", "D01", DS, [("            self._set[parent_two] = parent_one\n            self._rank[parent_one] += 1\n", "            self._set[parent_two] = parent_one\n            self._rank[parent_one] += 1\n\n            if self._rank[parent_one] > 3:\n                self._set[parent_one] = parent_one\n                self._set[set_two] = set_two\n")],
    "from pytimize.utilities import DisjointSet\nn = 16\nd = DisjointSet([str(i) for i in range(n)])\nk = 1\nwhile k < n:\n    for i in range(0, n, 2 * k):\n        d.union(str(i), str(i + k))\n    k *= 2\nassert len({d.find(str(i)) for i in range(n)}) == 1\n", "sixteen items joined in a tournament", "an item falls out of its group")
bug("P02g", "P02", LPA, [("                index = int(index) - 1\n", "                index = int(index[:4]) - 1\n")],
    "from pytimize.parsers import LinearParser\nassert LinearParser.parse('1x_12345').shape == (1, 12345)\n", "an index of five digits", "indices are cut off")
bug("P01f", "P01", GP, [("        for info in term.findall(expression):\n", "        for info in term.findall(expression[:200]):\n")],
    "from pytimize.parsers import GraphParser\nassert len(GraphParser.parse(' '.join(['ab'] * 100))) == 100\n", "a text of more than two hundred characters", "the rest of a long text is ignored")
bug("F01i", "F01", E, [("        if array_one.shape[0] > array_two.shape[0]:\n            array_one, array_two = array_two, array_one\n\n        return array_two + pad_right(array_one, array_two.shape[0])\n", "        if array_one.shape[0] > array_two.shape[0]:\n            array_one, array_two = array_two, array_one\n\n        return array_two + pad_right(array_one[:8], array_two.shape[0])\n")],
    FO + "v = variables(12)\np = minimize(v[0] + v[11]).subject_to(v[9] + v[0] >= v[11])\nassert p.A[0][9] == 1, p.A\n", "variables beyond the eighth on both sides", "coefficients are lost")
