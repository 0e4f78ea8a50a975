#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, observe, mech=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "observe_at": observe,
                    "mechanism": [{"name": n, "where": w} for n, w in (mech or [])],
                    "hook_needed": None},
    })


LIN = "pytimize/programs/_linear.py"
INT = "pytimize/programs/_integer.py"
UNC = "pytimize/programs/_unconstrained.py"
UND = "pytimize/graphs/_undirected.py"
DIR = "pytimize/graphs/_directed.py"
FRM = ["pytimize/formulations/linear/_equation.py", "pytimize/formulations/linear/_variable.py",
       "pytimize/formulations/linear/_objective.py", "pytimize/formulations/linear/_abstract.py",
       "pytimize/formulations/linear/_utilities.py"]

prop("L01", "solve() returns an optimum exactly when one exists",
     "For every linear program (max or min, any mix of <=, >=, = rows, nonnegative, nonpositive and free variables), solve() terminates and returns one value per original variable, satisfying every row and sign restriction and attaining the best objective value. It returns None exactly when the program is infeasible or unbounded. optimal_value() is the objective, constant included, at that optimum, or None.",
     ["inputs"], "all finite linear programs, of any shape, sign pattern, degeneracy, rank, feasibility and boundedness",
     "The suite solves seven hand-picked programs; optimality, feasibility classification and termination are claims about every program, including degenerate, infeasible-start, redundant and unbounded ones, which are hardly sampled.",
     [LIN], ["LinearProgram.solve", "LinearProgram.optimal_value"],
     [("conversion, start-basis choice and mapping back", "LinearProgram.solve"), ("two phases", "LinearProgram.two_phase_simplex")])

prop("L02", "Two-phase simplex: one true outcome, proved by its certificate",
     "For every program in standard equality form, two_phase_simplex terminates in exactly the outcome that is true of it: optimal (a feasible solution, the optimal basis it is the basic solution of, and a dual vector y with yA >= c and yb equal to the linear part of the objective), infeasible (no solution, no basis, and y with yA >= 0 and yb < 0), or unbounded (no solution, no basis, and a feasible point with a direction d >= 0, Ad = 0, cd > 0). The certificates refer to the program as the caller gave it, negative right-hand sides and redundant rows included, and the library's own verifiers accept them. The program itself is left unchanged.",
     ["inputs"], "all programs in standard equality form, including negative right-hand sides, degenerate vertices and linearly dependent rows",
     "Two optimal and five infeasible examples are tested and none that is unbounded or degenerate; a certificate is a proof obligation for every input.",
     [LIN], ["LinearProgram.two_phase_simplex", "LinearProgram.auxiliary"],
     [("auxiliary program", "LinearProgram.auxiliary"), ("certificate extraction", "LinearProgram.two_phase_simplex, LinearProgram.simplex")])

prop("L03", "Every simplex iteration is a Bland pivot to an equivalent program",
     "From any feasible basis of a program in standard equality form, simplex_iteration returns a program equivalent to its input, in canonical form for the given basis, and: the basic solution with its basis when no reduced cost is positive; no basis when the entering column proves unboundedness; otherwise the feasible basis that differs by Bland's exchange (lowest-index improving variable enters, lowest-index variable among the ratio-test ties leaves). The objective never decreases along the iterations, no basis repeats, and simplex from any feasible basis therefore terminates with the same true outcome and certificate as in L02.",
     ["inputs", "histories"], "all standard-form programs, all feasible start bases (in any order), all iteration sequences",
     "Tests run two iterations of one program and a handful of simplex calls; cycling, ties and degenerate steps depend on particular data and on the whole iteration sequence.",
     [LIN], ["LinearProgram.simplex_iteration", "LinearProgram.simplex"],
     [("Bland's rule and ratio test", "LinearProgram.simplex_iteration")])

prop("L04", "Canonical form is the same program seen from the basis",
     "For every program in standard equality form and every basis, to_canonical_form yields a program with an identity on the basis columns and zero objective on them, with exactly the same solutions of its rows, and with the same objective value at every feasible point. is_canonical_form_for recognises exactly the programs of that shape. Non-bases and programs not in standard equality form are rejected.",
     ["inputs"], "all programs and all index lists, bases or not, in any order",
     "Two bases of one program are tested.",
     [LIN], ["LinearProgram.to_canonical_form", "LinearProgram.is_canonical_form_for"])

prop("L05", "Conversion to standard equality form preserves the program",
     "to_sef turns every linear program into a maximisation with equality rows and nonnegative variables such that the feasible points of the original are exactly the images of its feasible points (negated variables, differences of split free variables, slacks and surpluses dropped), with linear objective values equal for max and opposite for min, and with the right-hand side and constant untouched. Columns appear in the documented order: the original variables, each free one followed by its negated twin, then one slack or surplus per inequality in row order. A program already in that form is returned as it is.",
     ["inputs"], "all combinations of objective, row relations, sign patterns, in any listing order",
     "Five fixed programs are compared with hand-written matrices; index bookkeeping of interleaved free and negative variables is only reached by particular patterns.",
     [LIN], ["LinearProgram.to_sef"])

prop("L06", "The dual program is the dual",
     "For every linear program, dual() has one variable per row and one row per variable, with the sense, sign restrictions and relations that make weak duality hold for every pair of feasible points and the optimal values equal (constants aside) whenever either is finite; taking the dual twice gives the original program back without its constant. Solving, converting or editing the dual never changes the original, nor the reverse.",
     ["inputs", "histories"], "all programs of all shapes and sign patterns",
     "There is no test of dual() at all.",
     [LIN], ["LinearProgram.dual"])

prop("L07", "Certificate verifiers accept exactly the valid certificates",
     "For every program in standard equality form and every candidate vector, verify_infeasibility accepts y exactly when yA >= 0 and yb < 0; verify_unboundedness accepts (x, d) exactly when x is feasible, d >= 0, Ad = 0 and cd > 0; verify_optimality accepts y exactly when yA >= c. Programs not in standard equality form are rejected with an error.",
     ["inputs"], "all standard-form programs and all candidate vectors, valid, invalid and on the boundary",
     "Only verify_infeasibility is tested, on three programs.",
     [LIN], ["LinearProgram.verify_infeasibility", "LinearProgram.verify_unboundedness", "LinearProgram.verify_optimality"])

prop("L08", "Feasibility, value and basis predicates agree with the definitions",
     "is_feasible(x) holds exactly when x satisfies every row relation and every variable's sign restriction, up to rounding error; evaluate is c.x + z, and value_of is that for feasible x and an error otherwise; is_solution_optimal(x) holds exactly when x is feasible and no feasible point has a better value. is_basis, compute_basic_solution, is_basic_solution, is_basis_feasible and is_feasible_basic_solution agree with the linear-algebra definitions for index lists given in any order. Vectors of the wrong length are rejected. Asking never changes the program's data.",
     ["inputs"], "all programs, all vectors and all index lists",
     "A few points of a few programs; the sign restrictions on nonpositive variables and unsorted bases are never tested.",
     [LIN], ["LinearProgram.is_feasible", "LinearProgram.evaluate", "LinearProgram.value_of", "LinearProgram.is_solution_optimal", "LinearProgram.is_basis", "LinearProgram.compute_basic_solution", "LinearProgram.is_basic_solution", "LinearProgram.is_basis_feasible", "LinearProgram.is_feasible_basic_solution"])

prop("L09", "Programs are independent values; only in-place operations change one",
     "Along any sequence of operations on any number of linear and integer programs, an operation changes the mathematical data of no program except the receiver of an operation asked to work in place, and never the caller's own arrays and lists; copies, duals, relaxations and not-in-place results share nothing with their sources. An operation that fails leaves the receiver as it was. Copies compare equal to their source until one of them is changed.",
     ["histories"], "all histories of constructions, copies, conversions, edits, solves and failing calls over several programs",
     "Tests check a single copy or a single call; aliasing and restoration bugs need a sequence of operations on related objects.",
     [LIN, INT], ["LinearProgram.*", "IntegerProgram.relax", "LinearProgram.copy"])

prop("L10", "Construction accepts exactly the well-formed programs, normalised",
     "Constructing a linear program succeeds exactly when A is a rectangular matrix, b and c match its shape, each relation is one of =, <=, >=, the objective is min or max, and the free and negative index lists are in range, duplicate-free and disjoint; otherwise it raises an error. The result reports back the same numbers, relations, sorted variable sets (nonnegative ones being the rest) and objective, however the data was supplied (lists or arrays, integers or floats, index lists in any order). It is reported as being in standard equality form exactly when it maximises, all rows are equalities and all variables are nonnegative.",
     ["inputs", "configurations"], "all argument combinations, well-formed and malformed",
     "Malformed arguments are sampled one kind at a time; interplay of the options is not.",
     [LIN], ["LinearProgram.__init__", "LinearProgram properties"])

prop("L11", "Adding a constraint or variable adds exactly that",
     "add_constraint yields the program whose feasible points are those of the original that satisfy the new row, and add_variable the program with one more variable of the stated sign, cost and column (zeros when none is given); every other row, variable, relation, sign and constant stays as it was. Any sequence of such edits gives the same program, the same standard-form status and the same solve() outcome as constructing the final program at once. Malformed constraints are rejected.",
     ["histories"], "all sequences of edits on all programs",
     "Neither operation has a test.",
     [LIN], ["LinearProgram.add_constraint", "LinearProgram.add_variable"])

prop("L12", "The printed form denotes the program",
     "The text of a linear program shows its sense, every objective coefficient and the signed constant, one line per row with every coefficient in order, its relation and right-hand side, and lists exactly the nonpositive and the nonnegative variables by 1-based index, free variables being in neither list. Numbers are shown in the documented rounding, integers (and numbers within rounding error, 1e-10, of one) without decimals. Columns are padded to align, and padding never changes a number. An integer program without a list of integral variables prints the same text followed by the line x ∈ Z.",
     ["inputs"], "all programs of all shapes, signs and number magnitudes",
     "Exact strings of a dozen programs are tested.",
     [LIN, "pytimize/parsers/_symbol.py"], ["LinearProgram.__repr__"])

prop("L13", "Row reduction yields the reduced row echelon form",
     "to_rref(M) returns, for every numeric matrix M (integer or floating point, any shape and rank), the reduced row echelon form of M: the one matrix with the same row space in which zero rows come last, every other row starts with a 1 further to the right than in the row above, and each such 1 is the only nonzero entry of its column. M and the program are left unchanged. is_in_rref says exactly whether the constraint matrix of a program in standard equality form is in that form, and accepts every result of to_rref.",
     ["inputs"], "all matrices, of any shape and rank",
     "Neither operation is tested; dependent rows, zero columns and rounding residue decide whether elimination finds the right pivots.",
     [LIN], ["LinearProgram.to_rref", "LinearProgram.is_in_rref"])

prop("L14", "The complementary slackness conditions characterise optimality",
     "For every linear program, cs_conditions lists exactly the complementary slackness conditions with respect to its dual: for each row that is an inequality, that the row's dual variable is zero or the row holds with equality, and for each variable with a sign restriction, that the variable is zero or its dual row holds with equality; one line each, naming the right variables, coefficients and right-hand sides. (A feasible point and a dual feasible point satisfy all of them exactly when both are optimal.) Equality rows and free variables, whose conditions are void, are not listed, and the program is left unchanged.",
     ["inputs"], "all programs of all shapes, senses, relations and sign patterns",
     "cs_conditions has no test.",
     [LIN], ["LinearProgram.cs_conditions", "LinearProgram.dual"])

prop("L15", "Random programs are well-formed and unbiased in form",
     "LinearProgram.random(rows, columns, magnitude) returns, on every call, a well-formed program with exactly that many rows and columns (4 by 6, magnitude 100, when left out) and with every coefficient, right-hand side, cost and the constant within the magnitude (up to rounding to hundredths); every objective sense, every relation of every row, every kind of every variable and both signs of every datum occur among its draws, any two of them in every combination, and the programs can be used like any other.",
     ["inputs"], "all shapes and magnitudes and all draws",
     "random has no test, and a test of one draw settles nothing about the others.",
     [LIN], ["LinearProgram.random"])

prop("L16", "The step log records the operations, on request, and tells the truth",
     "Along any sequence of operations on any number of linear and integer programs: a program's log of steps only grows at its end until clear_steps empties it (in place, or in the copy it returns); an operation changes no log but the receiver's (a query or an operation in place) or that of the program it returns, which continues the receiver's log; a copy starts with its original's log and the two are independent afterwards; an operation asked not to store steps (show_steps=False) stores none; and steps_string is the texts of the steps, in order, one per line. The steps of is_feasible (value_of, verify_unboundedness), is_basic_solution, to_canonical_form, simplex_iteration, to_sef, simplex and two_phase_simplex (and solve in standard form) agree with the facts: the verdict and the violated conditions, the vector and basis asked about (in the caller's indexing), the basis matrix, its costs, inverse and dual vector, the negated costs, consecutively numbered iterations starting from the given program, and the outcome, solution, basis and certificate that the call returns (linearly dependent rows, which the two phases drop, do not appear).",
     ["histories"], "all sequences of queries, conversions, solver calls, copies and clearings, with steps stored or not, in place or not, succeeding or failing",
     "Steps have no test.",
     [LIN, "pytimize/parsers/_description.py"], ["LinearProgram.steps", "LinearProgram.steps_string", "LinearProgram.clear_steps"],
     [("appending", "LinearProgram.__append_to_steps"), ("wording", "render_descriptor")])

prop("V01", "The drawn polyhedron is the feasible region",
     "For every program with two variables whose constraints are all <= or all >=, graph_polyhedron draws exactly one region: the polygon whose corners are exactly the vertices of the feasible region (constraints and sign restrictions) cut to the square |x1|, |x2| <= graph_limit, joined in the order of the boundary, for any real data, whether lines are parallel, concurrent, redundant or pass through the origin, and whether the region is a polygon, a segment or a point. Nothing is drawn when there is no such point. Programs with other relations or another number of variables are rejected. The program is unchanged in every case.",
     ["inputs"], "all two-variable programs and all limits",
     "graph_polyhedron has no test.",
     [LIN], ["LinearProgram.graph_polyhedron"])

prop("I01", "Branch and bound returns an integer optimum exactly when one exists",
     "For every integer program whose relaxation has a bounded or empty feasible region, branch_and_bound terminates and returns a feasible point of the program (rows and sign restrictions included) that is integral on every variable required to be integral (all of them unless a list of 1-based indices is given) and whose objective is best among all such points, for max and min alike; it returns None exactly when there is no such point. The program is left unchanged, and relax() is the same program without the integrality requirement.",
     ["inputs"], "all pure and mixed integer programs with bounded relaxations, both senses, all sign patterns",
     "One maximisation with two variables is tested.",
     [INT], ["IntegerProgram.branch_and_bound", "IntegerProgram.relax"])

prop("G01", "An undirected graph is what its edit history says",
     "After any sequence of additions, removals and weight changes, an undirected graph reports exactly the vertices, edges and weights that history implies; adjacency, edges and vertices agree with each other; an edge is the same edge in either endpoint order. An edit or query naming an absent element, a duplicate, a self-loop or a negative weight on addition raises an error and changes nothing. Copies and returned dictionaries are snapshots: later changes to either side are not visible on the other; two graphs are equal exactly when vertices, edges and weights are; the printed form has one line per vertex, naming its neighbours in lexical order.",
     ["histories"], "all edit histories over several graphs and their copies",
     "Each operation is tested once on a fresh graph; removal, failing edits and copies followed by edits are not.",
     [UND], ["UndirectedGraph"])

prop("G02", "Cuts and degrees are exactly the boundary arcs",
     "For every graph and every set of vertices, given as one name (of any length) or as any collection of names, the undirected cut is exactly the edges with one endpoint inside, the directed out-cut (in-cut) exactly the arcs leaving (entering) the set, and degree, indegree, outdegree and connections are the sizes of these sets. Names that are not in the graph contribute nothing.",
     ["inputs"], "all graphs, vertex sets and vertex names",
     "Only one-letter names and a few sets on one undirected graph are tested; directed cuts are not tested.",
     [UND, DIR], ["UndirectedGraph.cut", "UndirectedGraph.degree", "DirectedGraph.cut", "DirectedGraph.ncut", "DirectedGraph.indegree", "DirectedGraph.outdegree", "DirectedGraph.connections"])

prop("G03", "Traversals and structural predicates match graph theory",
     "From any start vertex, bfs and dfs visit exactly the connected component of the start, once each, in a breadth-first order (ties in the requested or lexical order) and a depth-first order respectively; random traversal is a permutation of all vertices. is_connected, has_spanning_tree, is_cyclic and is_tree hold exactly when the graph has the property (the empty graph is neither connected nor a tree), and partition returns exactly the connected components with their edges and weights.",
     ["inputs"], "all undirected graphs, connected or not, trees or not, and all start vertices",
     "Only is_tree is tested, on a few graphs.",
     [UND], ["UndirectedGraph.traverse", "UndirectedGraph.bfs", "UndirectedGraph.dfs", "UndirectedGraph.is_connected", "UndirectedGraph.is_cyclic", "UndirectedGraph.is_tree", "UndirectedGraph.partition"])

prop("G04", "Shortest paths are shortest, and the LP formulation agrees",
     "For every undirected graph with nonnegative weights and every pair of connected vertices, shortest_path returns a sequence of edges of the graph leading from start to end whose total weight is the minimum over all paths, and formulate_shortest_path returns a linear program with one variable per edge and that minimum as its optimal value. Unknown endpoints are rejected, and no path means an error, never a wrong path.",
     ["inputs"], "all weighted undirected graphs and endpoint pairs, names of any length, ties and zero weights",
     "The only test is skipped.",
     [UND], ["UndirectedGraph.shortest_path", "UndirectedGraph.formulate_shortest_path"])

prop("G05", "The stable-set formulation encodes exactly the stable sets",
     "For every nonempty vertex-weighted graph, edgeless ones included, formulate_max_stable_set returns an integer program and a vertex-to-column mapping such that the 0/1 vectors feasible for the program are exactly the indicator vectors of stable sets, no other integral vector is feasible, and the objective at each is the total weight of the set. Its integer optimum is therefore the maximum weight of a stable set.",
     ["inputs"], "all vertex-weighted undirected graphs",
     "The only test is empty.",
     [UND, INT], ["UndirectedGraph.formulate_max_stable_set"])

prop("G06", "A directed graph is what its edit history says",
     "After any sequence of additions, removals and weight changes, a directed graph reports exactly the nodes and arcs, with weights and demands, that history implies, an arc and its reverse being different arcs; removing an arc on request also removes exactly those endpoints left without connections. An edit naming an absent or duplicate element, a self-loop or malformed demands raises an error and changes nothing. A demand given for newly created endpoints is assigned to them.",
     ["histories"], "all edit histories, node names of any length, both directions of an arc",
     "The edit operations of directed graphs have no tests.",
     [DIR], ["DirectedGraph.add_arc", "DirectedGraph.remove_arc", "DirectedGraph.add_node", "DirectedGraph.set_arc_weight", "DirectedGraph.set_node_weight", "DirectedGraph.has_arc", "DirectedGraph.has_node"])

prop("G07", "Both max-flow algorithms return a maximum flow",
     "For every directed graph with nonnegative capacities and every two distinct nodes, ford_fulkerson and preflow_push terminate and return a flow on exactly the arcs of the graph, within capacities, conserved at every node other than source and sink, whose net outflow from the source is the returned value and equals the minimum cut capacity. Opposite arc pairs, arcs into the source or out of the sink, unreachable sinks and direct arcs are no exception. Invalid endpoints are rejected and the graph is unchanged.",
     ["inputs"], "all capacitated directed graphs and source-sink pairs, node names of any length",
     "Four acyclic-looking networks with one-letter names and no opposite arcs are tested.",
     [DIR], ["DirectedGraph.ford_fulkerson", "DirectedGraph.preflow_push"])

prop("G08", "The residual graph holds exactly the residual capacities",
     "For every capacitated directed graph and feasible arc flow, create_residual returns a graph with an arc from u to v exactly when the spare capacity of (u,v) plus the flow on (v,u) is positive, with that sum as its weight; flows missing from the input count as zero. Flows that are negative, exceed a capacity or name an unknown arc, and graphs with negative capacities, are rejected; graph and flow are unchanged.",
     ["inputs"], "all capacitated digraphs and arc flows, opposite arc pairs included",
     "Residual graphs are not tested.",
     [DIR], ["DirectedGraph.create_residual"])

prop("D01", "Disjoint sets: find identifies exactly the merged groups",
     "After any sequence of unions over a collection of distinct items, find gives the same representative for two items exactly when a chain of unions connects them, the representative is a member of its own group, and repeated finds agree until the next union of that group. Duplicate items at construction and unknown items in find or union raise an error and change nothing.",
     ["histories"], "all histories of union and find over collections of any size",
     "DisjointSet has no tests.",
     ["pytimize/utilities/_disjoint.py"], ["DisjointSet.find", "DisjointSet.union"])

prop("C01", "Tolerant comparisons are coherent around the tolerance",
     "For every pair of numbers the tolerant relations satisfy trichotomy: exactly one of value < test, value close to test, value > test holds, <= and >= are the negations of > and <, and values within the tolerance (less than 1e-10 away from zero; numpy's isclose around any other number) count as equal. is_negative, is_positive and is_integer follow the same tolerance on both sides of zero and of every integer. On arrays a comparison holds exactly when it holds for every entry; an unknown operator is rejected.",
     ["inputs"], "all finite numbers and arrays, in particular just inside and outside the tolerance",
     "Sample points of each relation in isolation are tested.",
     ["pytimize/utilities/_comparator.py"], ["Comparator"])

prop("F01", "Formulations denote the algebra the user wrote",
     "For every expression built from variables and numbers with +, -, unary signs and multiplication by numbers, and every comparison of two such expressions, the compiled program's objective, constant, rows, relations and right-hand sides are those of the written linear expressions, whatever the grouping, operand order or repetition of variables. Using an expression never changes it: the same expression object can be used in several places with the same meaning. Rows and objective may mention different variables; missing ones count as zero. An objective reports its own sense, coefficients and constant. Uses without a meaning (operands that are neither numbers nor expressions, products of expressions, variables with an index below one, no constraint at all) are refused.",
     ["programs"], "all formulation programs: expression trees, sharing of subexpressions, comparisons, objectives",
     "Three expressions with a single grouping are tested.",
     FRM, ["maximize", "minimize", "variables", "x", "subject_to"])

prop("F02", "Variable sign declarations compile to exactly the declared signs",
     "After any sequence of where, whereAllPositive and whereAllNegative declarations, the compiled program has exactly the declared nonnegative and nonpositive variables, every undeclared variable free, and the same rows and objective as before. A declaration that is duplicated or contradictory raises an error and leaves the formulation as it was. Programs compiled earlier are not changed by later declarations, and what is compiled after a declaration does not depend on anything done to programs compiled before it; several formulations made from the same objective and constraints do not affect one another.",
     ["histories"], "all declaration sequences over all formulations, interleaved with uses of the program",
     "One whereAllNegative call is tested.",
     FRM, ["AbstractLinearProgram.where", "AbstractLinearProgram.program"])

prop("P01", "Graph expressions parse exactly by the grammar",
     "GraphParser accepts exactly the single-space-separated term lists of one of its four forms (xy, name-name, xy:weight, name-name:weight, weights being unsigned decimals), and returns one (start, end, weight) triple per term in order, with weight 0 when none is written. Any other text, including mixtures of forms, is rejected with an error.",
     ["inputs"], "all strings",
     "A dozen strings are tested.",
     ["pytimize/parsers/_graph.py"], ["GraphParser.parse", "GraphParser.get_expression_type"])

prop("P02", "Linear expressions parse exactly by the grammar",
     "LinearParser accepts exactly the sums and differences of terms written coefficient, x_, index (optionally led by a minus; unsigned decimal coefficients; indices from 1) with no index repeated, and returns the row vector having each signed coefficient at its index and zeros elsewhere, of the requested size or else as long as the largest index. Any other text is rejected with an error.",
     ["inputs"], "all strings",
     "A single string is tested.",
     ["pytimize/parsers/_linear.py"], ["LinearParser.parse", "LinearParser.validate_expression"])

prop("U01", "Unconstrained methods move towards the stated objective's optimum",
     "For every smooth strictly convex (for max, strictly concave) function that has a minimizer (maximizer), steepest descent returns, within tolerance, its unique minimizer (maximizer), and so does Newton's method where its steps lead there (on quadratics, at once). Every step of Newton's method solves the Hessian system for the negative gradient. Every step of steepest descent starts along the negative gradient (gradient for max), satisfies the stated sufficient-decrease condition with the first step length of the backtracking sequence that does, and so never worsens the objective; the iteration stops at the first point whose gradient norm is within tolerance or at the iteration limit. The caller's starting point is not modified.",
     ["inputs", "histories"], "all smooth strictly convex/concave functions, start points and step parameters; all iteration sequences",
     "One minimisation is run per method; maximisation is not tested.",
     [UNC], ["UnconstrainedProgram.steepest_descent", "UnconstrainedProgram.newton_method"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
