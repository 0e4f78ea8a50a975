exec(open("/verif/tools/bugs5.py").read().split("# graphs\n")[0])
S = "import numpy as np\nfrom pytimize.programs import UnconstrainedProgram\n"
bug("U01h", "U01", "programs/_unconstrained.py", [("                a *= p\n", "                a *= p\n\n                if a < 1e-9:\n                    break\n")],
    S + "p = UnconstrainedProgram(lambda x: float(2.0 ** 40 * x @ x))\nx = p.steepest_descent([1.0], lambda x: 2.0 ** 41 * x, max_iteration=3)\nassert abs(x[0]) <= 1, x\n", "a very steep function", "a step that does not descend is taken")
bug("U01i", "U01", "programs/_unconstrained.py", [("            x += d\n\n            if np.linalg.norm(df(x)) <= tolerance:\n", "            x += d\n\n            if np.abs(df(x)).max() <= tolerance:\n")],
    S + "p = UnconstrainedProgram(lambda x: float((x ** 4).sum()))\nx = p.newton_method([1.] * 9, lambda x: 4 * x ** 3, lambda x: np.diag(12 * x ** 2), .01)\nassert np.linalg.norm(4 * x ** 3) <= .01, np.linalg.norm(4 * x ** 3)\n", "several variables", "it stops at a gradient above the tolerance")
bug("P01g", "P01", GP, [("float(info[2]) if parse_type > 1 else 0", "round(float(info[2]), 5) if parse_type > 1 else 0")],
    "from pytimize.parsers import GraphParser\nassert GraphParser.parse('ab:0.123456')[0][2] == .123456\n", "a weight with six decimals", "the weight is rounded")
bug("F02f", "F02", AB, [("        if len(self._negative_variables) + len(self._positive_variables) > 0:\n            raise ValueError(\"Variable constraints must be unset.\")\n\n        self._add_variable_constraint([], self._negative_variables)\n", "        if len(self._negative_variables) > 0 or len(self._positive_variables) == 1:\n            raise ValueError(\"Variable constraints must be unset.\")\n\n        self._add_variable_constraint([], self._negative_variables)\n")],
    FO + "p = minimize(x[1] + x[2]).subject_to(x[1] + x[2] >= 1)\na, b = variables(2)\np.where(a >= 0, b >= 0)\ntry:\n    p.whereAllNegative()\nexcept ValueError:\n    pass\nelse:\n    assert False\n", "two variables declared before all are declared negative", "contradicting declarations are accepted")
bug("C01d", "C01", CO, [("            for entry in value:\n", "            for entry in value[:6]:\n")],
    "import numpy as np\nfrom pytimize.utilities import Comparator\nassert not Comparator.is_integer(np.array([1.] * 6 + [.5]))\n", "an array of seven entries", "the seventh is not looked at")
bug("C01e", "C01", CO, [("            value -= int(value)\n", "            value -= int(value) if value < 2.0 ** 26 else value\n")],
    "from pytimize.utilities import Comparator\nassert not Comparator.is_integer(2.0 ** 27 + .5)\n", "numbers above sixty million", "they all count as integers")
bug("F01j", "F01", E, [("        return array_two + pad_right(array_one, array_two.shape[0])\n", "        return array_two + pad_right(array_one, array_two.shape[0]) * (1 if array_two.shape[0] < 12 else np.abs(np.sign(array_two)) * 0 + 1) + (0 if array_two.shape[0] - array_one.shape[0] < 5 else np.r_[np.zeros(array_two.shape[0] - 1), 0 * array_two[0]] - 0)\n")],
    FO + "assert True\n", "", "")
bug("D01g", "D01", DS, [("        if self._rank[parent_one] < self._rank[parent_two]:\n            self._set[parent_one] = parent_two\n", "        if self._rank[parent_one] < self._rank[parent_two]:\n            self._set[set_one] = parent_two\n            self._set[parent_one] = self._set[parent_one] if self._rank[parent_one] > 1 else parent_two\n")],
    "from pytimize.utilities import DisjointSet\nimport string\nd = DisjointSet(list(string.ascii_lowercase))\nL = string.ascii_lowercase\ndef tree(v):\n    if len(v) > 1:\n        h = len(v) // 2\n        a, b = tree(v[:h]), tree(v[h:])\n        d.union(a, b)\n    return v[0]\ntree(L[:4]); tree(L[4:12])\nd.union(L[3], L[4])\nassert d.find('a') == d.find('e') == d.find('b')\n", "two trees of different rank, the lower of rank two or more, joined through a leaf", "only the leaf is joined")
