"""The listed properties. gen.py turns them into properties.jsonl and MANIFEST.json."""


def P(id, title, statement, over, text, why, files, mech, technique, note="", na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, technique=technique, note=note, na=na)


I = "include/sleipnir/"
PROPS = [
    P("P01", "Expression values always reflect the current leaf values",
      "Whatever scalar expressions a program builds, shares, copies and overwrites, in whatever order leaf values are changed and values are read, reading an expression returns the value of its formula at the leaf values current at that moment. "
      "Changing a leaf is seen by every expression that depends on it and by no other expression.",
      ["programs", "histories", "inputs"],
      "all finite programs over leaves, constants and every supported operator and function, interleaved with leaf updates and value reads",
      "Tests read a handful of fixed formulas once or twice each; the guarantee is over all shapes of shared graphs and all update/read orders.",
      [I + "autodiff/variable.hpp", I + "autodiff/expression.hpp", I + "autodiff/expression_graph.hpp"],
      [("per-node value functions", "autodiff/expression.hpp"), ("topological sort and value refresh", "autodiff/expression_graph.hpp: topological_sort, update_values"),
       ("lazy refresh on read", "autodiff/variable.hpp: Variable::value")],
      "stateful property-based testing against an independent reference evaluator"),
    P("P02", "Constant folding and identity simplifications change no value",
      "Simplifications done while an expression is built (folding constants, dropping additions of zero and multiplications or divisions by one, short-cutting products with zero) never change the expression's value, at construction or after later leaf updates, wherever the unsimplified formula is finite. "
      "A leaf that merely happens to hold zero or one when the expression is built is never treated as a constant.",
      ["programs", "inputs"],
      "all expressions that mix constants (including 0, 1, -1) with leaves, and all later leaf values",
      "Tests check a few folds with fixed constants; a wrong fold only shows for particular constants in particular operand positions after a later update.",
      [I + "autodiff/expression.hpp", I + "autodiff/variable.hpp"],
      [("peephole folds in operators", "autodiff/expression.hpp: operator+, operator-, operator*, operator/ and functions")],
      "metamorphic property-based testing (constants versus leaves holding the same values)"),
    P("P03", "Gradients equal the true first derivatives",
      "The gradient of any scalar expression equals its mathematical first derivatives at the current leaf values, in the order of the requested variables, with zero for variables the expression does not depend on, and repeated evaluation after leaf updates gives the derivative at the new values. "
      "The symbolic form of the gradient and the evaluated form agree.",
      ["programs", "inputs", "histories"],
      "all differentiable expressions built from supported operations, all evaluation points in their smooth domain, all sequences of updates",
      "Tests differentiate fixed formulas at one or two points; operator derivatives, shared subexpressions and re-evaluation combine without bound.",
      [I + "autodiff/gradient.hpp", I + "autodiff/jacobian.hpp", I + "autodiff/expression.hpp", I + "autodiff/expression_graph.hpp"],
      [("reverse-mode adjoints per node", "autodiff/expression.hpp: grad_l, grad_r, grad_expr_l, grad_expr_r"), ("gradient class", "autodiff/gradient.hpp"),
       ("adjoint accumulation", "autodiff/expression_graph.hpp")],
      "property-based testing against an independent forward-mode differentiation oracle"),
    P("P04", "Jacobians equal the true first derivatives, also when cached rows are reused",
      "The Jacobian of a vector of expressions holds in row i and column j the derivative of expression i with respect to variable j at the current leaf values, however often it is evaluated and however the leaves change in between. "
      "Rows that are constant, linear and nonlinear may be mixed in any order and share subexpressions.",
      ["programs", "inputs", "histories"],
      "all vectors of expressions with mixed linear and nonlinear rows, all variable orders, all update/evaluate sequences",
      "Tests use small fixed vectors evaluated once; caching of linear rows only fails for certain mixtures and update histories.",
      [I + "autodiff/jacobian.hpp", I + "autodiff/expression_graph.hpp"],
      [("linear rows cached, nonlinear rows recomputed", "autodiff/jacobian.hpp: Jacobian::Jacobian, Jacobian::value")],
      "stateful property-based testing against a forward-mode differentiation oracle"),
    P("P05", "Hessians equal the true second derivatives and fill the requested triangles",
      "The Hessian of any scalar expression equals its mathematical second derivatives at the current leaf values, after every sequence of leaf updates and evaluations, in its symbolic and its evaluated form. "
      "The lower-triangle variant returns exactly the lower triangle of the full one.",
      ["programs", "inputs", "histories"],
      "all twice differentiable expressions built from supported operations, all points in their smooth domain, all update sequences",
      "Second derivatives need every operator's symbolic derivative to be right and itself differentiable; tests check a few formulas at single points.",
      [I + "autodiff/hessian.hpp", I + "autodiff/expression.hpp", I + "autodiff/expression_graph.hpp"],
      [("symbolic gradient then Jacobian", "autodiff/hessian.hpp"), ("symbolic adjoints per node", "autodiff/expression.hpp: grad_expr_l, grad_expr_r")],
      "property-based testing against an independent second-order differentiation oracle"),
    P("P06", "Reported expression types are sound and exact for polynomials",
      "An expression reported as constant, linear or quadratic is a polynomial of at most that degree in its leaves. "
      "Sums, differences, negations and products with constants or of two linear expressions are reported with their exact type, so linear and quadratic problems are recognised as such.",
      ["programs"],
      "all expressions built from supported operators and functions",
      "The type is a function of the whole expression tree; tests assert it for a fixed table of one- or two-operator expressions.",
      [I + "autodiff/expression.hpp", I + "autodiff/expression_type.hpp", I + "autodiff/variable.hpp"],
      [("type of each operator node", "autodiff/expression.hpp: type()"), ("type ordering and names", "autodiff/expression_type.hpp")],
      "property-based testing (finite differences of the reported degree vanish; degree oracle)"),
    P("P07", "Expressions live exactly as long as they are reachable, at any depth",
      "Values and derivatives stay correct for as long as any variable, matrix, derivative object or problem that needs them exists, in whatever order copies, moves and destructions happen and however memory is reused in between; "
      "once nothing refers to an expression its memory is given back, so that repeating work does not accumulate memory. "
      "Expressions of any depth can be built, evaluated, differentiated and destroyed without exhausting the stack, and expressions of different scalar types never disturb each other.",
      ["histories", "programs"],
      "all histories of creating, copying, moving, overwriting and destroying owners of expressions of several scalar types, and chains up to hundreds of thousands of operations deep",
      "Tests keep every expression alive to their end and build shallow ones; a premature release or leak needs a particular order of destruction followed by reuse.",
      [I + "autodiff/expression.hpp", I + "autodiff/variable.hpp", I + "util/pool.hpp", I + "util/intrusive_shared_ptr.hpp", "src/util/pool.cpp"],
      [("reference counting without recursion", "autodiff/expression.hpp: inc_ref_count, dec_ref_count"), ("pool allocator", "util/pool.hpp"),
       ("derivative objects keep their graph", "autodiff/gradient.hpp, jacobian.hpp, hessian.hpp")],
      "stateful model-based property-based testing with live-object accounting"),
    P("P08", "Work on separate threads never interferes",
      "Expressions, derivative objects, matrices, problems, optimal control problems and multistarts that are created, used and destroyed on one thread give bit for bit the results they give when run alone, whatever other threads do with the library at the same time, "
      "and the library touches no memory shared between threads without synchronisation.",
      ["schedules", "programs"],
      "all sets of threads, each working through its own list of expression, matrix, optimisation, optimal control and multistart jobs",
      "Tests run on one thread, but for two guesses of a multistart; a shared scratch buffer or pool shows only when threads overlap.",
      ["src/util/pool.cpp", I + "util/pool.hpp", I + "autodiff/expression.hpp", I + "optimization/multistart.hpp", I + "optimization/problem.hpp"],
      [("per-thread pool", "src/util/pool.cpp: global_pool_resource"), ("documented solve-per-thread use", "optimization/multistart.hpp: multistart"),
       ("expression scratch data", "autodiff/expression_graph.hpp: topological_sort")],
      "generated concurrent programs compared bitwise with the same programs run alone, under ThreadSanitizer"),
    P("P09", "Slices select exactly the elements Python slices select",
      "For any start, stop and step, given or omitted, negative or out of range, and any length, a slice selects the same elements in the same order as a Python slice does, and reports their number. "
      "The adjusted start, stop and step it leaves behind describe that selection.",
      ["inputs"],
      "all combinations of omitted, negative, in-range and out-of-range start, stop and step and all lengths, including 0",
      "The tests enumerate a few slices of one length; clamping has different cases per sign of step and per position.",
      [I + "autodiff/slice.hpp"],
      [("clamping and length", "autodiff/slice.hpp: Slice::adjust")],
      "property-based testing against a model of Python's slice semantics"),
    P("P10", "Matrix views alias exactly the elements they select",
      "A block, row, column, segment, slice or transpose of a variable matrix, nested to any depth, reads and writes exactly the elements that the same view of a plain matrix selects, in the same order. "
      "Assigning values or expressions through a view changes those elements and no others, and iteration, size and copying agree with element access.",
      ["programs", "histories", "inputs"],
      "all matrix shapes (also empty), all nestings of views with any offsets and steps, all sequences of reads and assignments through them",
      "Tests check a few fixed views of a few fixed matrices; offset and stride composition of nested views is unbounded.",
      [I + "autodiff/variable_matrix.hpp", I + "autodiff/variable_block.hpp", I + "autodiff/slice.hpp"],
      [("index composition", "autodiff/variable_block.hpp"), ("views", "autodiff/variable_matrix.hpp: operator[], block, segment, row, col, T")],
      "stateful property-based testing against a plain matrix of element references"),
    P("P11", "Matrix arithmetic equals element-wise linear algebra",
      "Sums, differences, products, scalar multiples and quotients, transposes, reductions, element-wise transforms and block concatenations of variable matrices, views, scalars and numeric matrices have the elements linear algebra defines, at the current leaf values. "
      "Compound assignment gives the same result as the plain operation even when the operands alias, and comparison of shapes and constructors keep element order.",
      ["programs", "histories", "inputs"],
      "all operand kinds (matrix, view, numeric matrix, scalar), shapes and sequences of operations, including aliased operands",
      "Tests check small fixed products; overloads per operand kind and aliasing of compound assignment multiply the cases.",
      [I + "autodiff/variable_matrix.hpp", I + "autodiff/variable_block.hpp", I + "autodiff/variable.hpp"],
      [("operators", "autodiff/variable_matrix.hpp"), ("compound assignment on views", "autodiff/variable_block.hpp"), ("concatenation", "autodiff/variable_matrix.hpp: block")],
      "stateful property-based testing against an independent matrix model"),
    P("P12", "Symbolic linear solves satisfy their equations; matrix exponentials match",
      "For a well-conditioned system, the symbolic solution multiplied by the matrix gives the right-hand side, for every size and number of right-hand sides, and still does after the entries change value. "
      "The symbolic matrix exponential equals the numeric one, also after the entries change value.",
      ["inputs", "histories"],
      "all well-conditioned square (and least-squares) systems with any number of right-hand sides, all moderate square matrices, and later values of their entries",
      "Each size has its own closed form; tests solve one fixed system per size and never change the entries afterwards.",
      ["src/autodiff/variable_matrix.cpp", I + "autodiff/variable_matrix.hpp"],
      [("closed forms per size", "src/autodiff/variable_matrix.cpp: solve"), ("matrix exponential", I + "autodiff/variable_matrix.hpp")],
      "property-based testing against numeric linear algebra, with a residual oracle"),
    P("P13", "A comparison of expressions states exactly the constraint it reads as",
      "Comparing scalars, matrices, views and numbers with ==, <, <=, >, >= yields one constraint per element, satisfied exactly where the comparison holds: equalities are zero when both sides agree and inequalities are nonnegative when the relation holds. "
      "Lists of constraints concatenate in order, bounds apply to both sides, and testing a constraint gives its truth at the current values.",
      ["inputs", "programs"],
      "all pairs of operand kinds and shapes, all relations, all lists of constraints, all leaf values",
      "Overloads exist per operand pair; tests cover satisfied and violated examples of some of them, not the sign and order of every element.",
      [I + "autodiff/variable.hpp", I + "autodiff/variable_matrix.hpp"],
      [("constraint construction", "autodiff/variable.hpp: make_constraints, EqualityConstraints, InequalityConstraints"), ("bounds", "autodiff/variable.hpp: bounds")],
      "property-based testing against element-wise comparison of the operands' values"),
    P("P14", "Convex problems are solved to their global optimum",
      "A problem with a strongly convex cost, independent affine equality constraints and concave inequality constraints, whose active gradients are independent at the optimum, is solved with SUCCESS from any finite start, and the decision variables end up at its unique optimum to within the tolerance. "
      "This holds for the unconstrained, equality-constrained and inequality-constrained solvers, and however variables, cost and constraints are written down.",
      ["inputs", "programs"],
      "all convex problems with the stated regularity, all starts of moderate size, all equivalent ways of writing them",
      "Tests solve a dozen fixed problems; solver faults often only slow down or misdirect particular combinations of active sets, scaling and starting points.",
      [I + "optimization/problem.hpp", I + "optimization/solver/newton.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/solver/interior_point.hpp"],
      [("solver selection and matrix callbacks", "optimization/problem.hpp: Problem::solve"), ("Newton", "optimization/solver/newton.hpp"), ("SQP", "optimization/solver/sqp.hpp"), ("interior point", "optimization/solver/interior_point.hpp")],
      "property-based testing with problems constructed around a known optimum and multipliers",
      note="SUCCESS is demanded where the tolerance is reachable in double precision and no exponential overflowed on the way; otherwise a stalled status with an accurate point is accepted."),
    P("P15", "SUCCESS means a feasible, stationary point of the stated problem",
      "Whenever solving ends with SUCCESS, whatever the problem, the returned decision variables are finite, satisfy every stated equality and inequality constraint to within the tolerance, and are stationary: multipliers with the right signs, zero for slack constraints, exist for which the Lagrangian's gradient vanishes to within a small multiple of the tolerance.",
      ["inputs", "programs"],
      "all smooth problems, convex or not, scaled or not, all starts, tolerances and option settings",
      "Tests see SUCCESS on fixed well-behaved problems; a premature or mistaken SUCCESS depends on scaling, nonconvexity, numerical breakdown or a constraint lost on the way to the solver.",
      [I + "optimization/problem.hpp", I + "optimization/solver/newton.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/solver/interior_point.hpp", I + "optimization/solver/util/kkt_error.hpp"],
      [("termination test on the unscaled KKT error", "optimization/solver/*.hpp: while loop on E_0"), ("unscaling", "optimization/solver/util/kkt_error.hpp: unscaled_kkt_error")],
      "property-based testing with independent first-order optimality verification"),
    P("P16", "Every exit status is truthful and leaves the point it claims",
      "Solving stops for the reason it reports: MAX_ITERATIONS_EXCEEDED after exactly the allowed iterations, TIMEOUT only after the allowed time, CALLBACK_REQUESTED_STOP exactly when a callback asked for it (also during feasibility restoration); each of these returns the current iterate of the unlimited run. "
      "Too many equality constraints, nonfinite initial values or derivatives, contradictory bounds and violated constant constraints are each refused with their own status, before any callback and without touching the variables, and only then. Infeasible and unbounded problems never end with SUCCESS.",
      ["inputs", "histories", "faults"],
      "all problems, limits, stop requests, sleeping callbacks, nonfinite starts, infeasible and unbounded statements",
      "Tests trigger each status once; that the limits cut the same run short at the right place, for every limit, takes comparing whole runs.",
      [I + "optimization/problem.hpp", I + "optimization/solver/exit_status.hpp", I + "optimization/solver/options.hpp", I + "optimization/solver/newton.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/solver/interior_point.hpp"],
      [("limits at the end of each iteration", "optimization/solver/*.hpp"), ("refusals", "optimization/problem.hpp: Problem::solve; optimization/solver/*.hpp: setup checks")],
      "metamorphic property-based testing (limited versus unlimited runs) and constructed refusals"),
    P("P17", "Equivalent statements of a problem solve identically",
      "Maximising the negated cost, swapping the sides of a comparison, using strict or non-strict inequalities, stating constraints one by one or as vectors, matrices, blocks or lists, creating variables one by one or as matrices, and ordering cost and constraint statements differently (each kind in its own order) leads to the same iterations, the same status and the same solution.",
      ["programs", "inputs"],
      "all problems and all combinations of these ways of stating them",
      "Each wrapper is its own code path; tests use whichever form was convenient and never compare two.",
      [I + "optimization/problem.hpp", I + "autodiff/variable.hpp", I + "autodiff/variable_matrix.hpp"],
      [("statements", "optimization/problem.hpp: minimize, maximize, subject_to"), ("comparison operators and constraint lists", "autodiff/variable.hpp")],
      "metamorphic property-based testing on recorded iterations"),
    P("P18", "Callbacks see each iteration once, in order, with the true derivatives",
      "Every registered callback is called exactly once per iteration, in the order of registration, with increasing iteration numbers, void and bool callbacks and persistent ones alike; cleared callbacks are not called. "
      "The gradient, Hessian and Jacobians they receive are those of the stated problem at the given iterate and duals, scaled as documented, and slacks and their duals are positive.",
      ["inputs", "histories"],
      "all problems, iterations and mixtures of callbacks",
      "Tests only count iterations or print; wrong derivative data passed on mostly slows convergence and goes unnoticed.",
      [I + "optimization/problem.hpp", I + "optimization/solver/iteration_info.hpp", I + "optimization/solver/util/problem_scaling.hpp"],
      [("matrix callbacks", "optimization/problem.hpp: Problem::solve"), ("callback lists", "optimization/problem.hpp: add_callback, add_persistent_callback, clear_callbacks"), ("iteration info", "optimization/solver/iteration_info.hpp")],
      "property-based testing against independently differentiated models"),
    P("P19", "Solving again behaves like solving a fresh problem",
      "After any history of solves, parameter changes, new initial guesses, further constraints and replaced costs, with or without diagnostics and sparsity files, and of solves ended by an exception, solving does exactly what a freshly built problem with the same statements and values does. An exception thrown by a callback leaves solve(). Callbacks stay registered until cleared. Parameters are never changed by solving.",
      ["histories"],
      "all histories of statements, updates and solves with different options",
      "State kept across solves (cached derivatives, stale adjoints, callbacks) needs particular histories to show; tests solve each problem once.",
      [I + "optimization/problem.hpp", I + "autodiff/jacobian.hpp", I + "autodiff/hessian.hpp", I + "autodiff/gradient.hpp"],
      [("solve sets up everything anew", "optimization/problem.hpp: Problem::solve"), ("graph state shared by expressions", "autodiff/expression_graph.hpp")],
      "stateful property-based testing against a freshly built problem"),
    P("P20", "Decision variables, type queries and results fit the statements made",
      "Decision variables come in the requested shape, distinct, zero-initialised and independent, symmetric ones shared across the diagonal. The reported cost and constraint types are those of the highest-order statement so far. "
      "After solving, variables and every expression of them hold the solution, and nothing else has changed.",
      ["programs", "inputs"],
      "all sequences of variable creation and statements",
      "Tests check single shapes and types and read results through one path.",
      [I + "optimization/problem.hpp"],
      [("variables", "optimization/problem.hpp: decision_variable, symmetric_decision_variable"), ("types", "optimization/problem.hpp: cost_function_type, equality_constraint_type, inequality_constraint_type")],
      "property-based testing with separable problems of known solution"),
    P("P21", "The feasible interior-point option never leaves the feasible region",
      "With the option set and all inequality constraints strictly satisfied at the start, every later iterate of the solve still satisfies all of them.",
      ["inputs", "histories"],
      "all problems with a strictly feasible start",
      "Steps are accepted on three different paths (line search, second-order correction, error reduction); tests use the option on one problem.",
      [I + "optimization/solver/interior_point.hpp", I + "optimization/solver/options.hpp"],
      [("slack reset to the constraint value", "optimization/solver/interior_point.hpp: trial_s")],
      "property-based testing of an invariant over recorded iterations",
      note="Iterates within feasibility restoration, which works on another problem, are not judged."),
    P("P22", "Multistart returns the best successful result, unmixed",
      "Multistart calls the given function exactly once per guess and returns one of its results unchanged: a successful one if there is any, and among the successful ones the one of lowest cost, whatever the order in which they finish.",
      ["inputs", "schedules"],
      "all lists of results with any statuses, costs (also infinite ones) and finishing orders",
      "The tests run one problem with two guesses, both successful.",
      [I + "optimization/multistart.hpp"],
      [("selection", "optimization/multistart.hpp: multistart")],
      "property-based testing with generated results and delays"),
    P("P23", "KKT error and problem scaling follow their definitions",
      "The reported KKT error is the documented norm or scaled norm of stationarity, complementarity and feasibility of the unscaled problem for every iterate, and is zero only at a KKT point. "
      "Automatic scaling factors are in (0, 1], scale the cost and each constraint by its own gradient, and are undone exactly when errors are reported.",
      ["inputs"],
      "all gradients, Jacobians, residuals, slacks, multipliers, barrier parameters and scale factors",
      "No existing test evaluates the error or the scaling on its own; end-to-end tests hide a wrong term because most problems still converge.",
      [I + "optimization/solver/util/kkt_error.hpp", I + "optimization/solver/util/problem_scaling.hpp", I + "optimization/solver/util/sparse_inf_norms.hpp"],
      [("error norms", "optimization/solver/util/kkt_error.hpp"), ("scaling", "optimization/solver/util/problem_scaling.hpp")],
      "differential property-based testing against dense reference formulas"),
    P("P24", "Step acceptance: fraction-to-the-boundary and filter rules",
      "The step fraction is the largest one in (0, 1] that keeps every component at or above the demanded share of its value. "
      "Over any history of trials, the filter accepts exactly the trial points its documented rules allow: never a nonfinite or excessively infeasible one, never one dominated by a remembered point, and it reports a rejection as the filter's own only when it was.",
      ["inputs", "histories"],
      "all positive vectors and directions; all histories of current and trial points, slopes and step sizes, with resets",
      "The filter is stateful over the whole solve; no test calls it directly and solves only visit benign histories.",
      [I + "optimization/solver/util/fraction_to_the_boundary_rule.hpp", I + "optimization/solver/util/filter.hpp", I + "optimization/solver/util/all_finite.hpp"],
      [("step rule", "optimization/solver/util/fraction_to_the_boundary_rule.hpp"), ("filter", "optimization/solver/util/filter.hpp: Filter::try_add")],
      "stateful model-based property-based testing"),
    P("P25", "Regularised factorisation yields the ideal inertia and solves the system",
      "For any symmetric KKT system, dense or sparse, and any history of systems given to one factorisation object, a successful factorisation is of the system plus the reported regularisation and has exactly one positive eigenvalue per decision variable and one negative per equality constraint. "
      "Solving returns the solution of that system, a well-conditioned convex system is not distorted, the Jacobian regularisation is at least its minimum whenever there is any, and the Hessian regularisation is never ten times what suffices.",
      ["inputs", "histories"],
      "all Hessians (convex, indefinite, negative definite, zero) and Jacobians (full rank or deficient), all sequences of them",
      "Regularisation keeps state across factorisations and has several escalation paths; tests never factorise matrices themselves.",
      [I + "optimization/solver/util/dense_regularized_ldlt.hpp", I + "optimization/solver/util/sparse_regularized_ldlt.hpp", I + "optimization/solver/util/regularized_ldlt.hpp", I + "optimization/solver/util/inertia.hpp"],
      [("inertia correction loop", "optimization/solver/util/*_regularized_ldlt.hpp: compute"), ("inertia count", "optimization/solver/util/inertia.hpp")],
      "stateful property-based testing against eigenvalue decompositions"),
    P("P26", "Bound detection is exact and projection lands inside the bounds",
      "Exactly the inequality constraints that are linear in a single decision variable are recognised as bounds, the tightest lower and upper bound of each variable are found whatever the current values, and contradictory bounds are reported. "
      "Projecting a point moves only components that are outside or too close to a bound, and moves them strictly inside.",
      ["inputs", "programs"],
      "all sets of linear, quadratic and nonlinear inequality constraints over the decision variables and parameters; all points and bounds",
      "Tests cover a few hand-written constraint lists; tightest-bound selection and sign handling depend on the order and scale of constraints.",
      [I + "optimization/solver/util/bounds.hpp"],
      [("bound detection", "optimization/solver/util/bounds.hpp: get_bounds"), ("projection", "optimization/solver/util/bounds.hpp: project_onto_bounds")],
      "property-based testing against a coefficient-level oracle"),
    P("P27", "Infeasibility tests, multiplier estimates and restoration slacks are right",
      "A point is called locally infeasible only if its constraints are violated and the gradient of the violation vanishes there, and always when both clearly hold. "
      "Least-squares multiplier estimates minimise the stationarity residual and are well defined even for dependent constraints, and restoration slacks satisfy their defining equations and are positive.",
      ["inputs"],
      "all constraint values, Jacobians, gradients and slacks",
      "These decide infeasible exit statuses and restarts but no test reaches them directly; end-to-end tests visit one or two infeasible problems.",
      [I + "optimization/solver/util/is_locally_infeasible.hpp", I + "optimization/solver/util/lagrange_multiplier_estimate.hpp", I + "optimization/solver/util/feasibility_restoration.hpp"],
      [("infeasibility tests", "optimization/solver/util/is_locally_infeasible.hpp"), ("least squares", "optimization/solver/util/lagrange_multiplier_estimate.hpp"),
       ("restoration slacks", "optimization/solver/util/feasibility_restoration.hpp: compute_p_n")],
      "property-based testing against dense reference formulas"),
    P("P28", "Sparse blocks are assembled at the right place",
      "Appending sparse blocks at row and column offsets yields exactly the entries of the blocks at those positions, in any number and order, and nothing else.",
      ["inputs"],
      "all sparse blocks, offsets and orders of appending",
      "Only exercised indirectly by whole solves, where misplaced entries usually cost iterations rather than correctness.",
      [I + "optimization/solver/util/append_as_triplets.hpp"],
      [("triplet append", "optimization/solver/util/append_as_triplets.hpp")],
      "property-based testing against dense assembly"),
    P("P29", "Solved optimal control problems obey the dynamics they were given",
      "For every transcription method, timestep method and kind of dynamics, a successfully solved optimal control problem returns a trajectory that satisfies the stated dynamics between consecutive samples under that method's rule, at the true sample times and with the reported timesteps, together with every constraint stated; "
      "on convex problems its cost is the global optimum, and with free timesteps known minimum times are attained. "
      "Any initial state may be stated with any method.",
      ["inputs", "programs"],
      "all small systems (linear and nonlinear, time-varying, continuous or discrete), methods, horizons, timestep bounds and constraints",
      "The tests solve two fixed systems from rest, time-invariant, with few method combinations, and compare loosely.",
      [I + "optimization/ocp.hpp", I + "optimization/ocp/dynamics_type.hpp", I + "optimization/ocp/timestep_method.hpp", I + "optimization/ocp/transcription_method.hpp"],
      [("direct transcription, collocation and single shooting", "optimization/ocp.hpp: constrain_direct_transcription, constrain_direct_collocation, constrain_single_shooting"),
       ("RK4 step", "optimization/ocp.hpp: rk4")],
      "property-based testing against independent integration and dense linear-quadratic optima"),
    P("P30", "Optimal control problems expose states, inputs and steps consistently",
      "The state, input and timestep matrices of an optimal control problem have the documented sizes, share timesteps as the timestep method says, start from the given timestep, and alias the problem's own decision variables; "
      "initial and final states, bounds and per-step constraints apply to exactly the samples they name, with per-step functions called once per sample in order with that sample's own state and input.",
      ["inputs", "programs"],
      "all methods, numbers of states, inputs and steps, timesteps, bounds and per-step constraints",
      "The tests use these functions to state two fixed problems; a constraint placed on the wrong sample can go unnoticed.",
      [I + "optimization/ocp.hpp"],
      [("matrices and setters", "optimization/ocp.hpp: X, U, dt, initial_state, constrain_initial_state, constrain_final_state, for_each_step, set_lower_input_bound, set_min_timestep")],
      "property-based testing against a model of the problem's interface"),
    P("P31", "Shared pointers free each object exactly once, when its last owner goes",
      "Under any sequence of construction, copy, move, assignment (including to itself and from a pointer held inside the object being released), swap, conversion and destruction, a shared object lives exactly as long as some pointer refers to it and is destroyed exactly once. "
      "Comparisons, truth value, dereference and the pointed-to address always agree with the object last assigned.",
      ["histories"],
      "all sequences of operations on a set of pointers over linked objects",
      "Ownership errors need particular operation sequences (self assignment, owner released during assignment); no test exercises them.",
      [I + "util/intrusive_shared_ptr.hpp"],
      [("reference counting", "util/intrusive_shared_ptr.hpp")],
      "stateful model-based property-based testing under AddressSanitizer"),
    P("P32", "Function references call what they were last bound to",
      "Under any sequence of construction, copy, rebinding and swap with functions, lambdas, const callables and other references, calling a function reference calls exactly the callable it was last bound to, with the arguments passed on and the result converted as declared. "
      "A copy stays bound to the callable and not to the reference it was copied from.",
      ["histories", "programs"],
      "all sequences of bindings among references and callables of different kinds",
      "No test rebinds a reference; the faults are in overload selection between copy, conversion and rebinding.",
      [I + "util/function_ref.hpp"],
      [("type-erased binding", "util/function_ref.hpp")],
      "stateful model-based property-based testing"),
    P("P33", "Scope guards run exactly once, on scope end, unless released",
      "However scopes are nested and left (normally, by early return or by exception) and however guards are moved or released, each guard's action runs exactly once when its last holder goes out of scope, in reverse order of construction, and never after it was released.",
      ["histories", "programs"],
      "all nestings of guarded scopes with moves, releases and ways of leaving",
      "No test moves, releases or nests guards, or leaves a scope by exception.",
      [I + "util/scope_exit.hpp"],
      [("active flag", "util/scope_exit.hpp")],
      "stateful model-based property-based testing"),
    P("P34", "Profilers report the durations that were measured",
      "Over any sequence of start/stop measurements, a profiler's count equals the number of completed measurements, its total is their sum, its current value the latest one and its average their quotient. "
      "A scoped profiler records exactly one measurement, whether it is stopped early, moved or left to its scope.",
      ["histories"],
      "all sequences of measurements on several solve and setup profilers, with scoped ones moved and stopped",
      "Timing code is untested; a double-counted or lost measurement needs a move or an early stop.",
      [I + "util/profiler.hpp"],
      [("profilers", "util/profiler.hpp: SetupProfiler, SolveProfiler, ScopedProfiler")],
      "stateful property-based testing with bracketing clocks"),
    P("P35", "Sparsity files record every matrix's sign pattern faithfully",
      "A sparsity file holds the title, labels and one frame per added matrix; decoding it gives back, for every entry of every matrix in order, whether it is absent or zero, positive or negative.",
      ["inputs", "histories"],
      "all titles, labels, matrix sizes and sequences of sparse matrices with positive, negative and explicitly stored zero entries",
      "No test decodes a file; errors show only for particular shapes, signs or several frames.",
      [I + "util/spy.hpp"],
      [("file writer", "util/spy.hpp: Spy")],
      "round-trip property-based testing with an independent decoder"),
    P("P36", "Enumerations format to their text in any format; printing never throws",
      "Every expression type and exit status formats to its own fixed text, padded and aligned as any format specification asks, and distinct values have distinct texts. "
      "Printing writes exactly the formatted text to the given stream and never throws, even when the stream cannot be written.",
      ["inputs"],
      "all enumerators, widths, fills and alignments, streams that accept or refuse output",
      "The tests print each value once without a format specification and never to a failing stream.",
      [I + "autodiff/expression_type.hpp", I + "optimization/solver/exit_status.hpp", I + "util/print.hpp"],
      [("formatters", "autodiff/expression_type.hpp, optimization/solver/exit_status.hpp"), ("print wrappers", "util/print.hpp")],
      "property-based testing against std::format of the plain text"),
    P("P37", "The Python bindings mean what numpy and the library mean",
      "Programs written with the Python package have the meaning the same program has in numpy and in the library: indexing, slicing and assignment of matrices and blocks follow numpy's rules, including negative indices and steps, "
      "and blocks stay valid and keep aliasing their matrix however long they live; operators accept variables, matrices, blocks, numbers and numpy arrays of every supported type and memory layout on either side with the same result; "
      "math functions, derivatives and comparisons agree with the reference values, before and after values change. "
      "Problems solved from Python reach the optimum, honour every keyword argument, call callbacks with the true iterates and derivatives, stop when one asks and let its exceptions through; bounds() with any mix of operand kinds constrains both sides; "
      "optimal control problems built from Python follow their dynamics and bounds; multistart() returns the best result; enumerations have their documented values.",
      ["programs", "inputs"],
      "all sequences of operations on variables, matrices, blocks and numpy arrays, all quadratic programs, linear optimal control problems and keyword arguments",
      "The Python tests use one fixed matrix per operation, contiguous arrays and no object lifetimes; combinations of operand kind, layout, index form and lifetime are unlimited.",
      ["python/cpp/autodiff/bind_variable_matrix.cpp", "python/cpp/autodiff/bind_variable_block.cpp", "python/cpp/autodiff/bind_variable.cpp", "python/cpp/optimization/bind_problem.cpp",
       "python/cpp/optimization/bind_ocp.cpp", "python/cpp/try_cast.hpp", "python/src/sleipnir/optimization/__init__.py"],
      [("index and slice translation, lifetimes", "python/cpp/autodiff/bind_variable_matrix.cpp, bind_variable_block.cpp"), ("numpy interoperation", "python/cpp/try_cast.hpp, __array_ufunc__"),
       ("keyword arguments and callbacks", "python/cpp/optimization/bind_problem.cpp"), ("multistart", "python/src/sleipnir/optimization/__init__.py")],
      "property-based testing (Hypothesis) of generated Python programs against numpy and a second-order reference evaluator"),
    P("P38", "Feasibility restoration solves the relaxed problem it is defined by",
      "At every iteration of feasibility restoration the relaxed problem has the constraints of the original one, relaxed by nonnegative amounts that all carry the same price, and a proximal term to the point it started from with weights proportional to min(1, 1/x²); "
      "its gradient, Jacobians and Hessian at each iterate are the true ones of that relaxed problem, including the curvature of the original constraints, and the relaxed constraints hold at the start. "
      "When it ends because an acceptable point was found, it returns that point's variables and slacks with the least-squares multipliers there; when it reports local infeasibility, no direction reduces the constraint violation further.",
      ["inputs"],
      "all smooth problems with equality and inequality constraints, consistent or not, scalings, starting points and slacks, and moments at which a point is accepted",
      "The tests that trigger restoration only look at the final status; a wrong relaxed Hessian or multiplier only slows or derails later steps.",
      [I + "optimization/solver/util/feasibility_restoration.hpp", I + "optimization/solver/util/lagrange_multiplier_estimate.hpp", I + "optimization/solver/util/append_as_triplets.hpp"],
      [("relaxed problems", "optimization/solver/util/feasibility_restoration.hpp: both feasibility_restoration overloads")],
      "property-based testing against an independent model of the relaxed problem"),
    P("P39", "The solvers solve the problem their matrix callbacks describe",
      "Newton, SQP and interior-point, given only functions that compute a problem's values, derivatives and scaling factors, start from the variables, slacks, multipliers and iteration number they are given, show their callbacks consecutive iterations with exactly the derivatives at that iterate, keep slacks and inequality multipliers positive, "
      "and on SUCCESS return variables, slacks and multipliers that satisfy the optimality conditions of the unscaled problem to the tolerance. "
      "A more general solver solves the problems of a less general one; on convex problems all reach the optimum, whatever the scaling factors and warm start.",
      ["inputs"],
      "all smooth problems, scaling factors, sparsity patterns, warm starts and tolerances",
      "No test calls the solvers directly, warm starts them or checks the multipliers they return.",
      [I + "optimization/solver/newton.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/solver/interior_point.hpp", I + "optimization/solver/util/kkt_error.hpp"],
      [("solvers", "optimization/solver/newton.hpp, sqp.hpp, interior_point.hpp"), ("stopping test", "optimization/solver/util/kkt_error.hpp: unscaled_kkt_error")],
      "property-based testing against independently computed optimality conditions and known optima"),
    P("P40", "Diagnostics describe the solve they belong to",
      "With the diagnostics option, solve() prints the exit conditions in force, the types and numbers of variables and constraints, the solver it chooses, one row per iteration whose number, cost, infeasibility, complementarity, error, step lengths and backtracks are those of that iteration, time traces whose runs, totals and percentages agree with each other and with the rows, the exit status it returns, and, "
      "when the problem is refused or found infeasible, exactly the violated constraints with their values, or the bounds that conflict. The result is the same as without diagnostics, which prints nothing.",
      ["inputs"],
      "all problems, options, callbacks and outcomes",
      "No test reads what is printed.",
      [I + "util/print_diagnostics.hpp", I + "optimization/problem.hpp", I + "optimization/solver/newton.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/solver/interior_point.hpp"],
      [("tables and lists", "util/print_diagnostics.hpp"), ("exit conditions, structure", "optimization/problem.hpp: print_exit_conditions, print_problem_analysis")],
      "property-based testing: captured output parsed and compared with an independent model of the problem and the iterates seen by callbacks"),
    P("P41", "Builds with compile-time options solve the same problems",
      "The library built with SLEIPNIR_DISABLE_DIAGNOSTICS gives the same exit statuses, iterates, derivatives and solutions as the standard build for every problem, prints nothing unless diagnostics are requested and writes no spy files. Built with SLEIPNIR_ENABLE_BOUND_PROJECTION, solve() starts from a guess "
      "moved strictly inside the bounds of the variables (where the bounds leave room; values well inside them stay as they are), finds the optimum of convex problems, including those with variables whose bounds are equal, returns SUCCESS only at points satisfying the optimality conditions, "
      "and for problems without bounds does exactly what the standard build does.",
      ["inputs"],
      "all problems and options, in both builds",
      "CI builds the library with diagnostics disabled but never with bound projection, and compares neither with the standard build.",
      [I + "optimization/solver/interior_point.hpp", I + "optimization/solver/newton.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/problem.hpp", I + "optimization/solver/util/feasibility_restoration.hpp", I + "optimization/solver/util/bounds.hpp"],
      [("bound projection", "optimization/solver/interior_point.hpp: SLEIPNIR_ENABLE_BOUND_PROJECTION"), ("disabled diagnostics", "optimization/solver/*.hpp: SLEIPNIR_DISABLE_DIAGNOSTICS")],
      "property-based testing: differential comparison of three builds of the library linked into one harness, known optima, independent KKT check"),
    P("P42", "Any scalar type works like the numbers it stands for",
      "The library is generic over its scalar type. With a scalar type that wraps a double and converts only explicitly, expressions, matrices, solve, exp, gradients, Jacobians, Hessians, problems and optimal control problems give exactly the results of double: "
      "the same values, expression types, derivatives, exit statuses, and the same iterates, slacks, multipliers and derivatives at every iteration. With long double and float, values and derivatives are accurate to the precision of the type, apart from mathematical constants, which are held in double precision.",
      ["inputs"],
      "all expressions, matrix programs, problems and optimal control problems, in every scalar type",
      "The tests repeat fixed examples with a wrapped double and compare each with its known answer to a tolerance; nothing compares the two, and other precisions are never tried.",
      [I + "autodiff/expression.hpp", I + "autodiff/variable.hpp", I + "autodiff/variable_matrix.hpp", I + "autodiff/hessian.hpp", I + "optimization/problem.hpp", I + "optimization/ocp.hpp",
       I + "optimization/solver/interior_point.hpp", I + "optimization/solver/sqp.hpp", I + "optimization/solver/newton.hpp"],
      [("expressions", "autodiff/expression.hpp, variable.hpp"), ("solvers", "optimization/problem.hpp, optimization/solver/*.hpp")],
      "property-based testing: the same generated program in several scalar types, compared bitwise (wrapped double) or with a long double reference (float, long double)"),
    P("P43", "Misuse is refused and changes nothing",
      "Where a failed precondition is reported as an exception (every build for Python), each operation is refused exactly if it is invalid: indices, blocks, segments, rows and columns outside of a matrix or of the view they are applied to, a slice step of zero, operands whose shapes do not fit "
      "(arithmetic, assignment, values, constraints, bounds, lists of rows or blocks, solve, exp, elementwise functions, scalars made from matrices), derivatives with respect to something other than a column vector, solver callbacks of the wrong sizes, and direct collocation of discrete dynamics. "
      "An operation that is refused leaves its operands as they were, one through a view never reaches elements outside of it, and valid operations are accepted and give the right result. In Python, indices count from the end if they are negative, and whatever numpy would refuse as an index is refused.",
      ["inputs", "histories"],
      "all operations on matrices, views, constraints, derivatives and solver callbacks with valid and invalid arguments",
      "Almost all tests use matching shapes and indices in range; what happens at and beyond each limit is a matter of all sizes, offsets, steps and nested views.",
      [I + "autodiff/variable_matrix.hpp", I + "autodiff/variable_block.hpp", I + "autodiff/slice.hpp", I + "autodiff/variable.hpp", I + "autodiff/jacobian.hpp", I + "autodiff/hessian.hpp",
       I + "util/assert.hpp", "python/cpp/autodiff/bind_variable_matrix.cpp", "python/cpp/autodiff/bind_variable_block.cpp"],
      [("preconditions", "autodiff/*.hpp, optimization/solver/*.hpp: slp_assert"), ("index checks of the bindings", "python/cpp/autodiff/bind_variable_*.cpp: __getitem__, __setitem__")],
      "property-based testing: generated operations with valid and invalid arguments against an independent predicate of validity (numpy indexing in Python), with snapshots of all operands"),
]
