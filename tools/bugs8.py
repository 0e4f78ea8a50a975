exec(open("/verif/tools/bugs5.py").read().split("# graphs\n")[0])
bug("L02g", "L02", L, [("        certificate[negative_indices] *= -1\n\n        return None, None, certificate\n", "        certificate[negative_indices[0][:3]] *= -1\n\n        return None, None, certificate\n")],
    LP + "p = LinearProgram(np.vstack([np.eye(4), [[1., 1, 1, 1]]]), [-1., -1., -1., -1., 3.], [1.] * 4)\nx, b, y = p.two_phase_simplex()\nassert x is None and p.verify_infeasibility(y), y\n", "four negative right-hand sides in an infeasible program", "the certificate is wrong")
bug("L03g", "L03", L, [("                    t = ratio\n                    leave = i\n", "                    t = max(ratio, 1e-3)\n                    leave = i\n")],
    LP + "p = LinearProgram([[1., 1., 0.], [1., 0., 1.]], [1 / 4096, 1 / 2048], [1., 0., 0.])\nassert p.simplex_iteration([2, 3])[1] == [1, 3]\n", "ratios below a thousandth", "ratios below a thousandth count as equal")
bug("L07h", "L07", L, [("        return Comparator.is_close_compare(yA, \">=\", 0) and Comparator.is_negative(yb)\n", "        return bool(np.all(yA >= -1e-6)) and Comparator.is_negative(yb)\n")],
    LP + "p = LinearProgram([[-1.]], [-1.], [0.])\nassert not p.verify_infeasibility([1e-7])\n", "a small certificate", "a certificate with slightly negative yA is accepted")
bug("L11g", "L11", L, [("        p._negative_variables = self._negative_variables.copy()\n", "        p._negative_variables = self._negative_variables[:] if len(self._negative_variables) < 2 else self._negative_variables\n")],
    LP + "p = LinearProgram([[1., 1., 1.]], [1.], [0.] * 3, 0, 'max', ['<='], None, [1, 2])\nq = p.add_variable(1, [2.], False, True)\nassert p.negative_variables == [1, 2]\n", "a program with two negative variables", "a variable added to a copy shows in the original")
bug("L14f", "L14", L, [("        for i in range(self._b.shape[0]):\n            if i in self._inequality_indices:\n                variable = f\"y", "        for i in range(self._b.shape[0]):\n            if i in self._inequality_indices and np.any(self._A[i]):\n                variable = f\"y")],
    LP + "p = LinearProgram([[0., 0.], [1., 2.]], [1., 2.], [1., 1.], 0, 'max', ['<=', '<='])\nassert 'y\\u2081 = 0' in p.cs_conditions()\n", "a row of zeros", "its condition is missing")
bug("L15h", "L15", L, [("        z = round(random.random() * magnitude * random.choice([-1, 1]), 2)\n", "        z = round(random.random() * min(magnitude, 1000) * random.choice([-1, 1]), 2)\n")],
    LP + "assert max(abs(LinearProgram.random(1, 1, 10 ** 6).z) for _ in range(300)) > 1000\n", "a large magnitude", "the constant never exceeds a thousand")
bug("L16h", "L16", L, [("                p._steps = self._steps\n", "                p._steps = self._steps.copy()\n")],
    LP + "p = LinearProgram([[1., 1.], [2., 2.]], [1., 2.], [1., 0.])\np.two_phase_simplex()\nassert '5.04' in [s['key'] for s in p.steps]\n", "a redundant row", "the steps are lost")
bug("I01g", "I01", I, [("                and position + 1 not in self._integral_variables\n", "                and position + 1 not in self._integral_variables[:3]\n")],
    "import numpy as np\nfrom pytimize.programs import IntegerProgram\np = IntegerProgram(2 * np.eye(4), [1.] * 4, [1.] * 4, 0, 'max', ['<='] * 4, integral_variables=[1, 2, 3, 4])\nassert not p.branch_and_bound()[3], p.branch_and_bound()\n", "four variables listed as integral", "the fourth may be fractional")
bug("V01e", "V01", L, [("                    if np.linalg.matrix_rank(A) < 2:\n", "                    if abs(np.linalg.det(A)) < 1e-2:\n")],
    LP + "import matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\ngot = []\nplt.fill = lambda xs, ys: got.append(set(zip(np.round(xs, 6), np.round(ys, 6))))\nplt.show = lambda: None\nLinearProgram([[.001, .001]], [.001], [1., 1.], 0, 'max', ['<=']).graph_polyhedron()\nassert (1., 0.) in got[0], got\n", "small coefficients", "vertices are missing")
bug("L12j", "L12", L, [("        elif magnitude > 1e10:\n", "        elif magnitude > 1e7:\n")],
    LP + "assert '123456789.' in str(LinearProgram([[123456789.]], [1.], [1.]))\n", "numbers of eight to ten digits", "they are rounded")
bug("L10f", "L10", L, [("            if min(negative_variables) < 0 or max(negative_variables) >= c.shape[0]:\n", "            if min(negative_variables) < 0 or negative_variables[len(negative_variables) // 2] >= c.shape[0]:\n")],
    LP + "try:\n    LinearProgram([[1., 1., 1., 1.]], [1.], [1.] * 4, 0, 'max', None, None, [1, 2, 3, 5])\nexcept (ValueError, IndexError):\n    pass\nelse:\n    assert False\n", "three valid indices and one out of range", "the index is accepted")
bug("L01h", "L01", L, [("                solution[index] -= solution[index + 1]\n                solution = np.delete(solution, index + 1)\n", "                solution[index] -= solution[index + 1] if solution[index + 1] < 1e4 else 0\n                solution = np.delete(solution, index + 1)\n")],
    LP + "p = LinearProgram([[1.]], [-20000.], [1.], 0, 'max', ['='], [1])\nassert abs(p.solve()[0] + 20000) < 1e-6\n", "a free variable below minus ten thousand", "its value is lost")
bug("L08i", "L08", L, [("            if i not in basis and not Comparator.is_close_to_zero(x[i]):\n", "            if i not in basis and not Comparator.is_close_to_zero(x[i]) and i < 8:\n")],
    LP + "p = LinearProgram([[1.] * 9], [1.], [0.] * 9)\nassert not p.is_basic_solution([0.] * 8 + [1.], [1])\n", "the ninth variable not zero", "the point is taken for basic")
