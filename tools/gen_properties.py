"""Writes properties.jsonl (the single source of the property statements)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}})
LIN="pytimize/programs/_linear.py"; INT="pytimize/programs/_integer.py"; UNC="pytimize/programs/_unconstrained.py"
UG="pytimize/graphs/_undirected.py"; DG="pytimize/graphs/_directed.py"; CMP="pytimize/utilities/_comparator.py"
p("C01","Tolerant comparisons form one consistent order",
 "For every finite number, exactly one of negative, close to zero and positive holds, where close to zero means magnitude below 1e-10; comparing with another reference value, exactly one of strictly less, close (numpy's isclose) and strictly greater holds, and `<=` / `>=` are the complements of `>` / `<`. A comparison of an array holds exactly when it holds for each of its elements. A number is integral exactly when it is within 1e-10 of an integer, and an array exactly when all its elements are.",
 ["inputs"],"all finite numbers and reference values; arrays of any contents",
 "Tests sample a few dozen values; the boundary bands around the tolerance, around integers from both sides and mixed-sign arrays are not covered.",
 [CMP],[("tolerance test","Comparator.is_close_to_zero"),("operator dispatch","Comparator.is_close_compare"),("fractional part test","Comparator.is_integer")],observe=["Comparator.*"])
p("C02","Disjoint sets track exactly the unions performed",
 "After any sequence of unions and finds over a collection of distinct items, two items have the same representative exactly when they are connected by the unions performed, the representative is a member of their class, and a find never changes the classes. Duplicate items on construction, and finds or unions naming an unknown item, are refused with a ValueError and change nothing.",
 ["histories","inputs"],"all collections of distinct names, all sequences of union/find calls",
 "No test exercises this class at all; path compression and union by rank only misbehave after particular sequences.",
 ["pytimize/utilities/_disjoint.py"],[("path compression","DisjointSet.find"),("union by rank","DisjointSet.union")],[("parent map","item -> parent","DisjointSet._set")],["DisjointSet.find","DisjointSet.union"])
p("C03","A linear program is accepted iff well formed and reports what it was given",
 "Constructing a linear program succeeds exactly when A is a matrix, b and c match its dimensions, the objective is `max` or `min`, there is one valid operator per row (or none given), and free and negative variable indices are distinct, in range and disjoint; anything else raises ValueError. A constructed program reports back the data given, its free, negative and remaining (positive) variables partition 1..n, and it is in standard equality form exactly when it maximizes with only equalities and only nonnegative variables.",
 ["inputs"],"all shapes, operators, objectives and variable index lists (in any order), all coefficient values",
 "Tests construct a handful of programs and a handful of invalid ones.",
 [LIN],[("argument validation","LinearProgram.__init__"),("accessors","LinearProgram properties")],observe=["LinearProgram(...)","A/b/c/z/objective/inequalities/free_variables/negative_variables/positive_variables/is_sef"])
p("C04","Feasibility and objective evaluation follow the program's definition",
 "A vector is reported feasible exactly when it satisfies every constraint with its operator and every variable's sign restriction, up to numerical tolerance, for programs in any form. Evaluating the objective at any vector of the right size gives c·x + z, value_of gives the same for feasible vectors and raises ValueError for infeasible ones, and vectors of the wrong size raise ValueError.",
 ["inputs"],"all programs (every objective, operator and sign pattern) and all vectors",
 "Tests check a few fixed points of a few fixed programs; each operator/sign/position combination is a separate branch.",
 [LIN],[("feasibility test","LinearProgram.is_feasible"),("objective","LinearProgram.evaluate / value_of")],observe=["is_feasible","evaluate","value_of"])
p("C05","Standard equality form preserves the program",
 "Converting any program to standard equality form yields a maximization with only equality constraints and nonnegative variables whose feasible points correspond to the feasible points of the original, with original variables recovered as the (signed) variables or differences of the split free variables in order followed by one slack per inequality. Under this correspondence every comparison of objective values is preserved (reversed in sign for minimizations), and a program already in that form is unchanged.",
 ["inputs"],"all coefficients, operators, objectives and free/negative variable patterns",
 "Tests compare five fixed programs; index shifts appear only with several free and negative variables mixed with inequalities.",
 [LIN],[("conversion","LinearProgram.to_sef")],[("reverse map","columns dropped/merged/negated when mapping back","LinearProgram._reverse_sef")],["to_sef"])
p("C06","The dual bounds the primal and dualizing twice returns the primal",
 "For every program, every pair of a primal-feasible and a dual-feasible vector satisfies weak duality (with objective constants left aside): the maximization's value never exceeds the minimization's. The dual of the dual is the original program up to its objective constant, and the dual's recorded form (operators, signs, objective, standard-form flag) is that of the textbook dual.",
 ["inputs"],"all coefficients, operators, objectives, variable sign patterns, and all pairs of feasible points",
 "There is no test of dual() at all.",
 [LIN],[("dualization table","LinearProgram.dual")],observe=["dual"])
p("C07","Bases and basic solutions are what linear algebra says",
 "A list of column indices, in any order, is a basis exactly when it has one valid index per row and its columns are independent; its basic solution is the one vector that is zero outside the basis and satisfies Ax = b, and non-bases are refused with an error. A vector is reported a (feasible) basic solution for a basis exactly when it solves Ax = b and vanishes outside it (and is nonnegative), a basis is reported feasible exactly when its basic solution is nonnegative, and a program is reported canonical for a basis exactly when the basis columns form the identity and have zero objective coefficients.",
 ["inputs"],"all matrices, right-hand sides, index lists in any order, and vectors",
 "Tests sample one matrix with sorted index lists; unsorted bases and most predicates are untested.",
 [LIN],[("determinant test","LinearProgram.is_basis"),("basis inverse","LinearProgram.compute_basic_solution"),("predicates","is_basic_solution / is_feasible_basic_solution / is_basis_feasible / is_canonical_form_for")],observe=["is_basis","compute_basic_solution","is_basic_solution","is_feasible_basic_solution","is_basis_feasible","is_canonical_form_for"])
p("C08","Canonical form is an equivalent rewriting of the program",
 "Converting a standard-form program to canonical form for a basis, given in ascending order, makes the basis columns the identity and their objective coefficients zero while leaving the set of solutions of the constraints and the objective value of each of those solutions unchanged. Programs not in standard equality form raise ArithmeticError and index lists that are not a basis raise ValueError.",
 ["inputs"],"all coefficients and all bases",
 "Tests compare two fixed bases of one program.",
 [LIN],[("reduction","LinearProgram.to_canonical_form")],observe=["to_canonical_form"])
p("C09","Simplex from a feasible basis terminates with a correct, certified answer",
 "Starting from any feasible basis of any standard-form program, simplex terminates; if it returns a solution, that solution is feasible, is the basic solution of the returned basis, and no feasible point has a higher objective value, and the certificate is dual feasible with the same value. Otherwise the program is unbounded and the certificate is a feasible point together with a nonnegative direction that keeps feasibility and strictly increases the objective.",
 ["inputs"],"all right-hand sides and objectives, including degenerate ones, and all feasible starting bases",
 "Tests run a few fixed programs; pivoting rules, ties and degeneracy create data-dependent paths (cycling, wrong leaving row) that samples miss.",
 [LIN],[("Bland pivoting","LinearProgram.simplex_iteration"),("iteration and certificates","LinearProgram.simplex")],observe=["simplex","simplex_iteration"])
p("C10","Two-phase simplex classifies every program with a valid certificate",
 "For every standard-form program whose constraint rows are linearly independent, two-phase simplex terminates and returns either an optimal feasible solution with its basis and a dual certificate of equal value, or, with no solution, a certificate that proves infeasibility when no feasible point exists, or a feasible point and improving direction proving unboundedness. These three answers are given exactly when the program is optimal, infeasible or unbounded respectively. A program whose rows depend on each other is answered in the same way or refused with an exception, and is never refused when it has no feasible point.",
 ["inputs"],"all right-hand sides (of any sign) and objectives over the constraint matrices within bounds",
 "Tests run a few fixed programs; degenerate phase-one endings, negative right-hand sides and sign flips of certificates are data dependent.",
 [LIN],[("phase one and basis completion","LinearProgram.two_phase_simplex"),("auxiliary program","LinearProgram.auxiliary")],observe=["two_phase_simplex"])
p("C11","solve() returns an optimal solution of the stated program, or None if none",
 "For a program in any form (either objective, any mix of operators, nonnegative, negative and free variables) whose constraint rows are independent after conversion to standard form, solve() returns a vector in the original variables that is feasible and at least as good as every feasible vector, and returns None exactly when the program is infeasible or unbounded. optimal_value() is the objective value of such a solution, or None.",
 ["inputs"],"all right-hand sides and objectives, for every operator/sign/objective pattern within bounds",
 "Tests solve nine fixed programs; the mapping back from standard form and the choice of starting basis depend on operator and sign patterns.",
 [LIN],[("dispatch and mapping back","LinearProgram.solve")],observe=["solve","optimal_value"])
p("C12","Certificate verification is sound and complete",
 "For standard-form programs, a vector is accepted as a certificate of infeasibility exactly when it satisfies yA >= 0 and yb < 0, so that no feasible point exists; a point and direction are accepted as a certificate of unboundedness exactly when the point is feasible and the direction is nonnegative, in the null space of A, and increases the objective; and a vector is accepted as a certificate of optimality exactly when it is dual feasible, so that no feasible point exceeds its dual value. Programs not in standard form raise ArithmeticError.",
 ["inputs"],"all programs, certificates and feasible points",
 "Tests check infeasibility certificates of a few fixed programs; unboundedness and optimality verification are untested.",
 [LIN],[("verifiers","verify_infeasibility / verify_unboundedness / verify_optimality")],observe=["verify_infeasibility","verify_unboundedness","verify_optimality"])
p("C13","Adding a constraint or a variable changes exactly that",
 "Adding a constraint yields a program whose feasible points are exactly the previously feasible points that satisfy it and whose objective is unchanged; adding a variable yields a program in which fixing that variable to zero gives back the original, and whose column, objective coefficient and sign restriction are those given. The standard-form flag stays accurate, ill-formed arguments (wrong size or unknown operator, both free and negative) raise ValueError and leave the program as it was.",
 ["inputs","histories"],"all programs, constraints, columns, and sequences of additions",
 "There is no test of add_constraint or add_variable.",
 [LIN],[("row/column extension","LinearProgram.add_constraint / add_variable")],observe=["add_constraint","add_variable"])
p("C14","Operations not in place never alter a program, and copies are independent",
 "Every query, solver and not-in-place transformation, whether it returns or raises, leaves the program's data (A, b, c, z, objective, operators, variable signs, form flag) exactly as it was. A copy equals its original, and in-place changes to the copy, to the dual or to the relaxation never show in the program they came from, nor the reverse; nor do recorded steps.",
 ["inputs","histories"],"all programs, every public operation, including those ending in an error",
 "Tests only compare A after some simplex calls; error paths and aliasing between derived programs are untested.",
 [LIN,INT],[("copying","LinearProgram.copy"),("sign normalization and restoration","LinearProgram.simplex")],[("program data","A, b, c, z, operators, sign sets","LinearProgram")],["all public methods of LinearProgram and IntegerProgram"])
p("C15","The auxiliary program decides feasibility",
 "For every standard-form program, the auxiliary program is a minimization with nonnegative right-hand side whose artificial variables form an identity basis, and a nonnegative vector satisfies the original constraints exactly when, extended with zero artificials, it is feasible for the auxiliary program with value zero. No feasible vector of the auxiliary program has negative value. Programs not in standard form raise ArithmeticError.",
 ["inputs"],"all matrices, right-hand sides of any sign, and vectors",
 "There is no direct test of auxiliary().",
 [LIN],[("construction","LinearProgram.auxiliary")],observe=["auxiliary"])
p("C16","Branch and bound returns an optimal integral solution",
 "For every integer program whose linear relaxation has a bounded feasible region, branch and bound terminates and returns a vector that is feasible, integral in all integer-constrained variables and at least as good as every other such vector, for both objectives and with free or negative variables; it returns None exactly when no such vector exists.",
 ["inputs"],"all right-hand sides and objectives within bounds, both objectives, all operator/sign patterns within bounds",
 "One test with one maximization; branching depends on fractional parts and on which branch is feasible.",
 [INT],[("branching","IntegerProgram.branch_and_bound")],observe=["branch_and_bound"])
p("C17","Integer programs keep their constraints and integrality",
 "The relaxation of an integer program has exactly its data and is a plain linear program, so every point feasible for the integer program is feasible for the relaxation. A point is feasible for the integer program exactly when it is feasible for the relaxation and integral in every integer-constrained variable, and copies of an integer program are integer programs with the same data and integrality. Its standard form is the relaxation's standard form, leaving the integer program alone; made in place, it stays an integer program with exactly the columns of its integral variables integral, and no slack.",
 ["inputs"],"all integer programs and points",
 "One test compares the relaxation of one program; integral feasibility and copying are untested.",
 [INT],[("relaxation","IntegerProgram.relax"),("feasibility","IntegerProgram.is_feasible"),("copy","LinearProgram.copy")],observe=["relax","is_feasible","copy"])
p("C18","The stable set program's feasible points are exactly the stable sets",
 "For every nonempty undirected graph, the formulated integer program has one variable per vertex given by the returned mapping, and a nonnegative integral vector is feasible exactly when it is the indicator of a set of vertices no two of which are adjacent. Its objective value is the total weight of the set, to be maximized.",
 ["inputs"],"all graphs, vertex weights and vectors",
 "The only test is empty.",
 [UG],[("formulation","UndirectedGraph.formulate_max_stable_set")],observe=["formulate_max_stable_set"])
p("C19","Steepest descent only ever improves and leaves its inputs alone",
 "For every function and its gradient, steepest descent returns a point whose function value is no worse than at the start (no larger when minimizing, no smaller when maximizing), each accepted step satisfies the sufficient-improvement condition, and it stops once the gradient norm is within tolerance or the iteration limit is reached. The caller's starting point is not modified.",
 ["inputs"],"all functions, gradients, starting points and parameters",
 "One test minimizes one function from one point.",
 [UNC],[("backtracking line search","UnconstrainedProgram.steepest_descent")],observe=["steepest_descent"])
p("C20","Newton's method follows Newton steps and leaves its inputs alone",
 "For every function, gradient and nonsingular Hessian, Newton's method moves by the solution d of Hessian·d = -gradient at each iterate, until the gradient norm is within tolerance or the iteration limit is reached, and returns the last iterate itself for both objectives; for a quadratic function the result is its stationary point after one step. The caller's starting point is not modified.",
 ["inputs"],"all gradients, Hessians, starting points, both objectives",
 "One test minimizes one function from one point.",
 [UNC],[("Newton step","UnconstrainedProgram.newton_method")],observe=["newton_method"])
p("C21","An undirected graph stays consistent through every history of edits",
 "After any construction and sequence of additions, removals and weight changes, the adjacency, the edges and the vertices reported agree with one abstract graph: adjacency is symmetric and matches the edges, edges are independent of endpoint order, and weights are the last ones set (0 by default). Operations on missing edges or vertices, loops, empty names, duplicates and negative weights on addition raise ValueError and change nothing; copies and the reported dictionaries share no state with the graph, and two graphs are equal exactly when their vertices, edges and weights are; a graph never equals anything else, without an error.",
 ["histories","inputs"],"all vertex names, weights and sequences of operations",
 "Tests check single operations on fixed graphs; removal and aliasing are untested.",
 [UG],[("edge and vertex edits","add_edge / remove_edge / add_vertex / set_* / get_*"),("copy","UndirectedGraph.copy")],[("adjacency, edges, vertices","three views of one graph","UndirectedGraph._graph/_edges/_vertices")],["graph","edges","vertices","has_edge","has_vertex","get_edge_weight","get_vertex_weight","copy","=="])
p("C22","Undirected cuts and degrees count exactly the boundary edges",
 "For every graph and every vertex or set of vertices, with names of any length, the cut is exactly the set of edges with one endpoint inside and one outside, and the degree is its size. A single vertex name denotes that vertex alone.",
 ["inputs"],"all graphs, names and vertex sets",
 "Tests use one graph with single-letter names.",
 [UG],[("edge filter","UndirectedGraph.cut"),("degree","UndirectedGraph.degree")],observe=["cut","degree"])
p("C23","Connectivity, tree, cycle and partition answers are right for every graph",
 "A nonempty graph is reported connected exactly when every two vertices are joined by a path, cyclic exactly when it contains a cycle, and a tree exactly when it is connected and acyclic; the empty graph is neither connected nor a tree nor cyclic. Partitioning returns the connected components, each with exactly the vertices, edges and weights of that component. A spanning tree of a graph that is not connected is refused.",
 ["inputs"],"all graphs",
 "Tests check a few fixed graphs for is_tree only.",
 [UG],[("searches","is_connected / is_cyclic / is_tree / partition")],observe=["is_connected","has_spanning_tree","is_cyclic","is_tree","partition"])
p("C24","Traversals visit the right vertices in the right order",
 "From any start vertex, breadth-first and depth-first traversal yield every vertex reachable from it exactly once and no other, starting with it; breadth-first yields vertices in nondecreasing distance and takes the new neighbours of a vertex in the requested order (lexical by default), and depth-first continues from the most recently visited vertex that still has unvisited neighbours. Random traversal yields each vertex of the graph exactly once, and an unknown start raises ValueError.",
 ["inputs"],"all graphs, start vertices and neighbour orders",
 "There is no test of traversal.",
 [UG],[("worklist traversal","UndirectedGraph.traverse / bfs / dfs")],observe=["traverse","bfs","dfs"])
p("C25","The shortest path returned is a path of minimum total weight",
 "For every graph with nonnegative edge weights and every two vertices joined by a path, the result is a list of consecutive edges leading from the start to the end, present in the graph, whose total weight is no greater than that of any other path; for equal start and end it is empty. Unknown vertices, and an end that cannot be reached, raise ValueError.",
 ["inputs"],"all graphs, names, nonnegative weights and endpoint pairs",
 "Its only test is skipped.",
 [UG],[("primal-dual growth","UndirectedGraph.shortest_path")],observe=["shortest_path"])
p("C26","The shortest path program describes exactly the start-end cuts",
 "For every graph with an edge and two distinct vertices of it, the formulated program minimizes total edge weight over nonnegative edge variables (in the order the graph lists its edges) subject to one covering constraint per set of vertices containing the start but not the end, requiring at least 1 on the edges leaving that set. Hence the edges of every start-end path are feasible with the path's weight as value, and every 0/1 feasible vector contains such a path.",
 ["inputs"],"all graphs, weights and endpoint pairs",
 "There is no test of this formulation.",
 [UG],[("cut enumeration","UndirectedGraph.formulate_shortest_path")],observe=["formulate_shortest_path"])
p("C27","A directed graph stays consistent through every history of edits",
 "After any construction and sequence of arc and node additions, arc removals and weight changes, the arcs, nodes and adjacency agree with one abstract digraph: every endpoint of an arc is a node, and removing an arc removes exactly it and, on request, exactly those of its endpoints left without connections. Operations on missing or duplicate arcs or nodes and loops raise ValueError and change nothing.",
 ["histories","inputs"],"all node names, weights, demands and sequences of operations",
 "No test edits a directed graph.",
 [DG],[("edits","add_arc / add_node / remove_arc / set_*")],[("adjacency, arcs, nodes","three views of one digraph","DirectedGraph._graph/_arcs/_nodes")],["arcs","nodes","has_arc","has_node","connections"])
p("C28","Directed cuts and degrees count exactly the crossing arcs",
 "For every digraph and every node or set of nodes, with names of any length, the cut is exactly the set of arcs leaving the set and the reverse cut exactly the arcs entering it; outdegree, indegree and connections are their sizes and the sum of both. A single node name denotes that node alone.",
 ["inputs"],"all digraphs, names and node sets",
 "There is no test of cuts of directed graphs.",
 [DG],[("arc filters","DirectedGraph.cut / ncut"),("degrees","indegree / outdegree / connections")],observe=["cut","ncut","indegree","outdegree","connections"])
p("C29","The residual graph has exactly the remaining capacities",
 "For every digraph with nonnegative capacities and every flow within them, the residual digraph has an arc u to v exactly when the unused capacity of u to v plus the flow on v to u is positive, with that amount as its weight, including when both directions exist. Flows that are negative, on unknown arcs or with negative capacities raise ValueError, and flows above capacity raise ArithmeticError.",
 ["inputs"],"all digraphs, capacities and flows",
 "There is no test of residual graphs.",
 [DG],[("residual computation","DirectedGraph.create_residual")],observe=["create_residual"])
p("C30","Ford-Fulkerson returns a maximum flow",
 "For every digraph with nonnegative capacities (antiparallel arcs, arcs into the source or out of the sink, unreachable parts and names of any length included) and distinct source and sink in it, Ford-Fulkerson terminates with a flow within capacities that is conserved at all other nodes, whose value is the net amount leaving the source and equals the capacity of some source-sink cut, hence maximum. Unknown or equal endpoints raise ValueError and the graph is unchanged.",
 ["inputs"],"all topologies within bounds, all nonnegative capacities",
 "Four fixed networks without antiparallel arcs and with single-letter names.",
 [DG],[("augmentation","DirectedGraph.ford_fulkerson"),("path search","DirectedGraph._bfs_path")],observe=["ford_fulkerson"])
p("C31","Preflow push returns a maximum flow",
 "For every digraph with nonnegative capacities (antiparallel arcs, arcs into the source or out of the sink, graphs of only source and sink, and names of any length included) and distinct source and sink in it, preflow push terminates with a flow within capacities that is conserved at all other nodes, whose value is the net amount leaving the source and equals the capacity of some source-sink cut, hence maximum. Unknown or equal endpoints raise ValueError and the graph is unchanged.",
 ["inputs"],"all topologies within bounds, all nonnegative capacities",
 "Four fixed networks without antiparallel arcs and with single-letter names.",
 [DG],[("push/relabel","DirectedGraph.preflow_push")],observe=["preflow_push"])
p("C32","Linear expressions denote exactly the arithmetic the user wrote",
 "Every expression built from variables, linear expressions and numbers with +, -, unary signs and multiplication by a number has exactly the coefficients and constant of the written arithmetic, whatever the operand order, nesting and grouping. Building or comparing an expression never changes the operands, and comparing two sides with <=, >= or == yields the constraint equivalent to the comparison written.",
 ["inputs","programs"],"all expression trees within bounds, all numeric coefficients",
 "Tests build sums of distinct variables with one constant; subtraction and scaling of grouped terms and reuse of subexpressions are untested.",
 ["pytimize/formulations/linear/_equation.py","pytimize/formulations/linear/_variable.py"],[("operator overloading","LinearEquation / Variable"),("constraint generation","LinearEquation._generate_constraint")],observe=["coefficients","constant","inequality"])
p("C33","A formulated program is the program the user wrote",
 "A program written with maximize/minimize, subject_to and where has exactly the written objective, one row per constraint in order, and one column per variable up to the highest one mentioned in the objective or a constraint; a point is feasible exactly when it satisfies the written constraints and sign restrictions, and variables without a sign restriction are free. Duplicate or conflicting sign restrictions raise ValueError and change nothing. The parts written can be used again for further programs. In-place operations on the formulation act on its program. Integer formulations build integer programs.",
 ["inputs","programs"],"all coefficients, constraints and restriction patterns within bounds",
 "One integration test with two bounds.",
 ["pytimize/formulations/linear/_objective.py","pytimize/formulations/linear/_abstract.py","pytimize/formulations/linear/_utilities.py","pytimize/formulations/linear/_variable.py"],[("matrix assembly","ObjectiveFunction.subject_to"),("sign restrictions","AbstractLinearProgram.where / program")],observe=["program"])
p("C34","The graph parser reads every well-formed edge list exactly and rejects others",
 "A text is accepted exactly when it is, in full, a list of edges separated by single whitespace characters, all in one of the four documented styles (two word characters, or two words joined by a dash, each with or without a colon and nonnegative decimal weight; word characters are letters, digits and the underscore). An accepted text yields one edge per item, in order, with exactly the written endpoints and weight (0 if none); any other text raises ValueError. get_expression_type tells the style, -1 for other texts.",
 ["inputs"],"all texts within the length bound over all characters",
 "Tests parse a few fixed strings.",
 ["pytimize/parsers/_graph.py"],[("validation and extraction patterns","GraphParser.parse / get_expression_type")],observe=["GraphParser.parse","GraphParser.get_expression_type"])
p("C35","The linear expression parser reads exactly the terms written and rejects others",
 "A text is accepted exactly when it is, in full, a sequence of terms `<number>x_<index>` joined by + or - signs (the first optionally negative) with indices starting at 1, none repeated and none beyond the requested size; the result is the one-row vector with each written signed coefficient at its index and zero elsewhere. Any other text raises an exception.",
 ["inputs"],"all texts within the length bound over all characters, all sizes",
 "Three fixed strings.",
 ["pytimize/parsers/_linear.py"],[("validation and extraction patterns","LinearParser.parse")],observe=["LinearParser.parse","LinearParser.validate_expression"])
p("C36","The drawn polyhedron is the region of the constraints",
 "For every two-variable program in which all constraints are <= or all are >=, and every graph limit, the drawn polygon's corners are exactly the corners of the region described by the constraint rows within the limit box (variable sign restrictions are not drawn), in angular order and closed, and the program itself is unchanged, also when the region is empty. Programs of other shapes raise ArithmeticError.",
 ["inputs"],"all two-variable constraint systems and limits",
 "There is no test of plotting.",
 [LIN],[("intersection enumeration","LinearProgram.graph_polyhedron")],observe=["matplotlib plot/fill calls"])
p("C37","Row reduction yields the reduced row echelon form",
 "For every matrix, to_rref returns a matrix in reduced row echelon form with the same row space, and does not modify its argument. A program's is_in_rref flag is true exactly when its constraint matrix is in reduced row echelon form.",
 ["inputs"],"all matrices",
 "There is no test of row reduction.",
 [LIN],[("Gauss-Jordan","LinearProgram.to_rref"),("shape test","LinearProgram.is_in_rref")],observe=["to_rref","is_in_rref"])
p("C38","Random programs are always well formed",
 "Whatever the random source returns, the generated program is well formed, has exactly the requested numbers of rows and columns, entries of magnitude at most the requested one (to two decimals), and every variable nonnegative, nonpositive or free.",
 ["inputs"],"all outcomes of the random source, all sizes and magnitudes within bounds",
 "There is no test of random().",
 [LIN],[("generation","LinearProgram.random")],observe=["LinearProgram.random"])
p("C39","The printed program shows the program's numbers, operators and signs",
 "The text form of every program, linear or integer and also one without constraints, shows the objective, every number to three decimals (at least three significant digits below 1, four above 1e10), every constraint's operator, which variables are restricted to be nonnegative or nonpositive and, on a line of its own, that all variables of an integer program are integral, with the decimal points and brackets of the constraint rows aligned.",
 ["inputs"],"all programs",
 "Tests compare a few fixed renderings.",
 [LIN,"pytimize/programs/_integer.py"],[("number formatting","LinearProgram._format_number"),("layout","LinearProgram.__repr__"),("integrality","IntegerProgram.__repr__")],observe=["repr"])
p("C40","Recording of steps never changes a result or anything but the step log",
 "Whether steps are recorded never changes the result of an operation. With recording switched off no step is added to the program; with it on steps are only appended; clearing removes them all, in place or on a copy as asked.",
 ["inputs","histories"],"all programs and operations that take the recording flag",
 "Tests check the presence of a few step keys for one conversion.",
 [LIN,"pytimize/parsers/_description.py"],[("step log","LinearProgram steps"),("clearing","LinearProgram.clear_steps")],observe=["steps","steps_string","clear_steps"])
p("C41","Programs are equal exactly when their data are the same",
 "Two linear programs compare equal exactly when they have the same matrix, right-hand side, objective vector and constant, objective, operators and variable signs, whichever sequence of construction, added rows, added columns, copying or dualizing twice produced them; inequality is the opposite, both are symmetric, and a program never equals anything that is not a program, without an error. Two integer programs are equal exactly when their integral variables are the same too, and an integer program never equals a linear program.",
 ["inputs","histories"],"all pairs of programs",
 "Tests compare a handful of equal programs and no nearly equal ones.",
 [LIN],[("comparison","LinearProgram.__eq__")],observe=["==","!="])
p("C42","The printed complementary slackness conditions are those of the program",
 "For every program, the complementary slackness text has exactly one condition per inequality constraint (its dual variable is zero or the constraint holds with equality) and one per variable that is not free (it is zero or its dual constraint holds with equality), each equation showing exactly the program's coefficients and right-hand side for the variables they belong to.",
 ["inputs"],"all programs",
 "Tests compare the text of a fixed program.",
 [LIN],[("conditions","LinearProgram.cs_conditions")],observe=["cs_conditions"])
p("C43","The text of an undirected graph lists every vertex with its neighbours",
 "The text of every undirected graph has exactly one line per vertex, in order, isolated ones included, naming the vertex and exactly its neighbours in order, so that equal graphs have equal texts however they were built.",
 ["inputs","histories"],"all undirected graphs",
 "Tests print at most a few fixed graphs.",
 [UND] if "UND" in globals() else ["pytimize/graphs/_undirected.py"],[("text","UndirectedGraph.__repr__")],observe=["repr"])
p("C44","Solving a formulated model gives the best point the user's constraints allow",
 "For a model written with maximize or minimize, subject_to and where, with terms and constants on either side and restrictions given in any order and number of steps, solve() returns a point that satisfies every written constraint and sign restriction and has the best objective value of all such points, optimal_value() is that value with the written constant, and None is returned only if no such point exists or the objective is unbounded. For integer models branch_and_bound() does so among integral points. A restriction added after a first solve takes effect in the next. (A bare variable compared with the number 0 is a sign restriction.)",
 ["inputs","programs","histories"],"all models within bounds, with symbolic constants and objective coefficients",
 "No test solves a formulated model.",
 ["pytimize/formulations/linear/_abstract.py","pytimize/formulations/linear/_objective.py","pytimize/formulations/linear/_equation.py","pytimize/formulations/linear/_variable.py","pytimize/formulations/integer/_objective.py","pytimize/programs/_linear.py","pytimize/programs/_integer.py"],
 [("delegation","AbstractLinearProgram.__getattr__"),("recompilation","AbstractLinearProgram.program"),("solution","LinearProgram.solve")],observe=["solve","optimal_value","branch_and_bound"])
p("C45","A program, its standard form, its canonical forms and its dual have the same optimum",
 "The dual of a program has an optimal solution exactly when the program has one; the solutions that solve() returns for the two are each feasible and complementary to each other, so that their objective values (constants apart) are equal. The solution of the standard form, written in the original variables, is optimal for the program, and every canonical form has the same optimal value as the program.",
 ["inputs","programs"],"all programs within bounds whose rows, and whose dual's rows, are independent after conversion; symbolic b, c and z",
 "No test compares the optimum of a program with that of its dual.",
 ["pytimize/programs/_linear.py"],[("dual","LinearProgram.dual"),("standard form","LinearProgram.to_sef"),("solution","LinearProgram.solve")],observe=["solve","evaluate","dual","to_sef","to_canonical_form"])
p("C46","Solving the programs a graph formulates answers the graph problem",
 "With nonnegative edge weights, the optimal value of the program formulate_shortest_path builds is the length of the path shortest_path returns, and it has no solution exactly when the end cannot be reached. branch_and_bound() on the program formulate_max_stable_set builds returns the indicator, under the returned mapping, of a stable set of maximum total weight, whatever the vertex weights.",
 ["inputs","programs"],"all graphs within bounds with symbolic weights",
 "No test solves a formulated graph program.",
 ["pytimize/graphs/_undirected.py","pytimize/programs/_linear.py","pytimize/programs/_integer.py"],[("covering program","UndirectedGraph.formulate_shortest_path"),("packing program","UndirectedGraph.formulate_max_stable_set")],observe=["optimal_value","branch_and_bound","shortest_path"])
p("C47","Both flow algorithms find flows of the same value that cannot be augmented",
 "For nonnegative capacities, ford_fulkerson and preflow_push return the same value; the residual graph of either returned flow has no path from source to sink; no cut has a smaller capacity than the value. A second computation after capacities were changed or arcs and nodes added or removed answers for the digraph as it is then, and leaves the first result alone.",
 ["inputs","histories"],"all digraphs within bounds with symbolic capacities",
 "Tests run each algorithm on a few fixed networks and never compare them.",
 ["pytimize/graphs/_directed.py"],[("augmentation","DirectedGraph.ford_fulkerson"),("pushes","DirectedGraph.preflow_push"),("residual graph","DirectedGraph.create_residual")],observe=["ford_fulkerson","preflow_push","create_residual"])
p("C48","The recorded steps state what the operation did and found",
 "With recording on, the steps an operation of a linear program adds are true: is_feasible records the vector asked about and its conclusion, in standard form with exactly the reasons that apply; is_basic_solution records the vector, the basis as given, each entry outside the basis that is not zero, and the conclusion; to_canonical_form records the basis, its columns and costs, the inverse and the y vector; simplex records one numbered program per iteration and then either that the program is unbounded or the solution, basis and certificate it returns; to_sef records the conversion and, for a minimization, the objective before and after.",
 ["inputs"],"all programs and vectors within bounds",
 "Tests check the presence of four step keys for one conversion.",
 ["pytimize/programs/_linear.py","pytimize/parsers/_description.py"],[("step log","LinearProgram.__append_to_steps"),("texts","render_descriptor")],observe=["steps"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
