import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py")).read().split("# L13")[0])
E = "formulations/linear/_equation.py"
AB = "formulations/linear/_abstract.py"
OB = "formulations/linear/_objective.py"
VA = "formulations/linear/_variable.py"
GP, LPA = "parsers/_graph.py", "parsers/_linear.py"
DS, CO = "utilities/_disjoint.py", "utilities/_comparator.py"
# tolerances
bug("L03e", "L03", L, [("            if Comparator.is_positive(self._c[i]):\n                k = i\n\n                break\n", "            if self._c[i] > 1e-4:\n                k = i\n\n                break\n"),
                       ("        if Comparator.is_close_compare(self._c[N], \"<=\", 0):\n", "        if np.all(self._c[N] <= 1e-4):\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [.00005, 0.])\nx, B, y = p.simplex([2])\nassert np.allclose(x, [4, 0]), x\n", "reduced costs below 1e-4 (costs in large units)", "simplex stops before the optimum")
bug("L02d", "L02", L, [("        if Comparator.is_close_to_zero(p_aux.evaluate(solution)):\n", "        if np.isclose(p_aux.evaluate(solution), 0, atol=1e-4):\n")],
    LP + "p = LinearProgram([[.00002, .00002]], [-.00002], [1., 0.])\ntry:\n    x, B, y = p.two_phase_simplex()\nexcept ArithmeticError:\n    x = 0\nassert x is None\n", "an infeasible program whose violation is small in absolute terms", "no certificate of infeasibility")
bug("L07d", "L07", L, [("        test = self._c - certificate @ self._A\n\n        return Comparator.is_close_compare(test, \"<=\", 0)\n", "        test = self._c - certificate @ self._A\n\n        return np.allclose(np.maximum(test, 0), 0, atol=1e-4)\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [.00005, 0.])\nassert not p.verify_optimality([0.])\n", "a vector that violates one dual row by less than 1e-4", "no certificate is accepted as one")
bug("L07e", "L07", L, [("        return Comparator.is_close_compare(yA, \">=\", 0) and Comparator.is_negative(yb)\n", "        return Comparator.is_close_compare(yA, \">=\", 0) and yb < -1e-4\n")],
    LP + "p = LinearProgram([[1., 1.]], [-1.], [1., 0.])\nassert p.verify_infeasibility([.00005])\n", "a certificate of small scale", "genuine certificates of infeasibility are refused")
bug("L07f", "L07", L, [("        if Comparator.is_close_compare(self._c @ certificate, \"<=\", 0):\n", "        if np.isclose(self._c @ certificate, 0, atol=1e-5) or self._c @ certificate < 0:\n")],
    LP + "p = LinearProgram([[1., -1.]], [0.], [.000005, 0.])\nassert p.verify_unboundedness([0., 0.], [1., 1.])\n", "costs of small scale", "genuine certificates of unboundedness are refused")
bug("L07g", "L07", L, [("        if not np.allclose(self._A @ certificate, 0):\n", "        if not np.isclose((self._A @ certificate).sum(), 0):\n")],
    LP + "p = LinearProgram([[1., -1., 0.], [-1., 1., 0.], [0., 0., 1.]], [0., 0., 0.], [1., 0., 0.])\nassert not p.verify_unboundedness([0., 0., 0.], [2., 1., 0.])\n", "a direction whose residuals cancel each other", "vectors outside the kernel are accepted")
bug("L08e", "L08", L, [("            if i not in basis and not Comparator.is_close_to_zero(x[i]):\n", "            if i not in basis and not np.isclose(x[i], 0, atol=1e-3):\n")],
    LP + "p = LinearProgram([[1., .001]], [4.], [1., 0.])\nassert not p.is_basic_solution([3.9999995, .0005], [1])\n", "a nonbasic entry below 1e-3", "a vector that is no basic solution is accepted")
bug("L08f", "L08", L, [("        if not np.allclose(self._A @ x, self._b):\n            show_steps and self.__append_to_steps(\"4.03\")\n", "        if not np.isclose(np.linalg.norm(self._A @ x), np.linalg.norm(self._b)):\n            show_steps and self.__append_to_steps(\"4.03\")\n")],
    LP + "p = LinearProgram([[1., 0.], [0., 1.]], [3., -3.], [1., 0.])\nassert not p.is_basic_solution([-3., 3.], [1, 2])\n", "a vector whose residual has the right length", "the wrong vertex is accepted")
bug("L08g", "L08", L, [("        if not self.is_feasible(x):\n            raise ValueError()\n\n        return self.evaluate(x)\n", "        if not self.is_feasible(x):\n            raise ValueError()\n\n        return round(self.evaluate(x), 6)\n")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [.000001, .0000005], 0, 'max', ['<='])\nassert abs(p.value_of([0., 1.]) - .0000005) < 1e-9\n", "objectives of small scale", "value_of differs from evaluate")
bug("I01e", "I01", I, [("            if not Comparator.is_integer(value):\n", "            if abs(value - np.round(value)) > 1e-3:\n")],
    LP + "from pytimize.programs import IntegerProgram\np = IntegerProgram([[2000.]], [2001.], [1.], 0, 'max', ['<='])\nx = p.branch_and_bound()\nassert abs(x[0] - 1) < 1e-6, x\n", "an optimum of the relaxation within 1e-3 of an integer", "a fractional point is returned")
bug("L01e", "L01", L, [("        columns >= rows", "        columns >= rows")] if False else
    [("                if sef.is_basis_feasible", "                if sef.is_basis_feasible")] if False else
    [("            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1\n", "            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1\n\n            solution[np.abs(solution) < 1e-3] = 0\n")],
    LP + "p = LinearProgram([[5000., 1.]], [2., ], [1., 0.], 0, 'max', ['<='])\nx = p.solve()\nassert abs(x[0] - .0004) < 1e-8, x\n", "an optimum with an entry below 1e-3", "small entries of the solution are dropped")
bug("L01f", "L01", L, [("            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1\n", "            for i in sef._reverse_sef[\"negative\"]:\n                solution[i] *= -1\n\n            solution = np.round(solution, 9 - int(math.log10(1 + np.abs(solution).max())) * 2)\n")],
    LP + "p = LinearProgram([[3., 0.], [0., 1.]], [1., 123456.], [1., 1.], 0, 'max', ['<='] * 2)\nx = p.solve()\nassert abs(x[0] - 1 / 3) < 1e-6, x\n", "a solution with large and small entries", "small entries are rounded when another one is large")
# two places that look fine alone
bug("L05d", "L05", L, [("        self._reverse_sef = {\n            \"drop\": len(self._inequality_indices),\n", "        self._reverse_sef = {\n            \"drop\": len(self._inequality_indices),\n"), 
                       ("        self._negative_variables = []\n\n        for i in range(len(self._free_variables)):\n            index = self._free_variables[i] + i\n", "        self._negative_variables = []\n\n        for i in range(len(self._free_variables)):\n            index = self._free_variables[i] + min(i, 2)\n")],
    LP + "p = LinearProgram([[1., 2., 3., 4.]], [4.], [1., 2., 3., 4.], 0, 'max', ['='], [1, 2, 3, 4])\nassert np.allclose(p.to_sef().c, [1, -1, 2, -2, 3, -3, 4, -4]), p.to_sef().c\n", "four free variables", "the fourth is split at the wrong place")
bug("L09e", "L09", L, [("        p._inequality_indices = self._inequality_indices.copy()\n        p._free_variables", "        p._inequality_indices = self._inequality_indices.copy() if self._inequality_indices else self._inequality_indices\n        p._free_variables")],
    LP + "p = LinearProgram([[1., 1.]], [4.], [2., 1.])\nq = p.copy()\nq.add_constraint([1., 0.], '<=', 1., in_place=True)\np.add_constraint([1., 0.], '=', 1., in_place=True)\nassert p.inequalities == ['=', '='], p.inequalities\n", "a copy of a program without inequalities that gains one in place", "the relation appears in the original too")
bug("L11d", "L11", L, [("            self._free_variables.append(self._c.shape[0])\n            self._is_sef = False\n        elif negative:\n            self._negative_variables.append(self._c.shape[0])\n            self._is_sef = False\n", "            self._free_variables.append(self._c.shape[0])\n            self._is_sef = False\n        elif negative:\n            self._negative_variables.append(self._A.shape[0] and self._c.shape[0])\n            self._is_sef = len(self._negative_variables) > 1 and self._is_sef\n            self._negative_variables = sorted(set(self._negative_variables), key=lambda i: (i >= 9, str(i)))\n")],
    LP + "p = LinearProgram([[1.] * 11], [4.], [1.] * 11, 0, 'max', ['='], None, [2, 11])\np = p.add_variable(1., [1.], negative=True)\nq = p.copy()\nassert q.negative_variables == [2, 11, 12], q.negative_variables\nassert p == LinearProgram([[1.] * 12], [4.], [1.] * 12, 0, 'max', ['='], None, [2, 11, 12])\nr = LinearProgram([[1.] * 3], [4.], [1.] * 3).add_variable(1., [1.], negative=True)\nassert not r.is_sef\nt = LinearProgram([[1.] * 12], [4.], [1.] * 12, 0, 'max', ['=']) \nfor i in range(90):\n    t.add_variable(1., [1.], negative=True, in_place=True)\nassert t.negative_variables == sorted(t.negative_variables), t.negative_variables\n", "more than ninety nonpositive variables added one by one", "the order of the nonpositive variables")
bug("L10d", "L10", L, [("        A = self.__to_ndarray(A)", "        A = self.__to_ndarray(A)")] if False else
    [("            if isinstance(row, list):\n                    if length", "")] if False else
    [("                        elif type(column) not in [int, float]:\n                            raise ValueError()\n", "                        elif type(column) not in [int, float, bool]:\n                            raise ValueError()\n")],
    LP + "try:\n    LinearProgram([[True, False]], [4.], [2., 1.])\n    ok = False\nexcept ValueError:\n    ok = True\nassert ok\n", "a truth value inside the matrix given as lists", "truth values are accepted as numbers")
bug("L12e", "L12", L, [("            precision = abs(math.floor(math.log(magnitude, 10))) + 3\n", "            precision = min(abs(math.floor(math.log(magnitude, 10))) + 3, 9)\n")],
    LP + "p = LinearProgram([[.0000012347, 1.]], [4.], [2., 1.], 0, 'max', ['<='])\nassert '1.235e-06' in str(p), str(p)\n", "a number below 1e-5 with four significant digits", "digits of small numbers are lost")
bug("L12f", "L12", L, [("            b_int_spaces = max(curr_b_int_spaces, b_int_spaces)\n", "            b_int_spaces = max(min(curr_b_int_spaces, 6), b_int_spaces)\n")],
    LP + "p = LinearProgram([[1.], [1.], [1.]], [12345678., 1., -1234567.], [2.], 0, 'max', ['<='] * 3)\nw = [l.split('≤')[1] for l in str(p).split('\\n') if '≤' in l]\nassert len(set(map(len, w))) == 1, w\n", "right-hand sides with more than six digits", "the column is no longer aligned")
bug("L13e", "L13", L, [("                elif math.isclose(arr[row, col], 1):\n", "                elif math.isclose(arr[row, col], 1, rel_tol=.02):\n")],
    LP + "p = LinearProgram([[1.01, 1.]], [4.], [2., 1.])\nassert not p.is_in_rref\n", "a pivot within two percent of one", "a matrix whose pivot is not one is said to be reduced")
