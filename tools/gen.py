#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (claims only the properties that have a harness)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, E = "internal/ceres/", "include/ceres/"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))

M = lambda name, where: {"name": name, "where": where}

prop("C01", "A solve never returns a worse point, and tells the truth about it",
     "For every problem and every accepted solver configuration (either minimizer), when the summary says the solution is usable the reported final cost equals the cost of the parameter values left in the user's arrays and is no larger than the reported initial cost, which equals the cost of the values passed in (projected onto their bounds, if they were outside). When the solution is not usable the user's arrays hold exactly the values they had before the call. Parameter blocks that are constant, and coordinates held constant by a manifold, are never changed by a single bit.",
     ["inputs", "configurations"], "all problems (sizes, manifolds, losses, bounds, constant blocks, random nonlinear residuals) x all accepted Solver::Options",
     "solver_test/system_test solve a handful of fixed problems with a handful of option sets; the claim is over every problem and option combination, and none of those tests can even be linked in this environment.",
     [I+"solver.cc", I+"trust_region_minimizer.cc", I+"line_search_minimizer.cc", I+"trust_region_preprocessor.cc", I+"program.cc", I+"minimizer.cc", I+"solver_utils.h"],
     [M("restore-or-commit of the parameter state after minimisation", I+"solver.cc: Minimize"), M("best-point tracking", I+"trust_region_minimizer.cc: FinalizeIterationAndCheckIfMinimizerCanContinue"), M("fixed cost of the removed blocks", I+"program.cc: CreateReducedProgram")],
     "generated problems x generated solver configurations; oracle recomputes costs independently of the library's evaluator",
     "Exploration. Independent cost evaluation in the harness; Eigen-only build (no SuiteSparse/LAPACK/CUDA).",
     observe=["Solver::Summary::{initial_cost,final_cost,termination_type}", "user parameter arrays"])

prop("C02", "Linear least squares problems are solved to the exact minimiser",
     "For every full-rank linear least squares problem, every accepted trust-region configuration (linear solver, preconditioner, elimination ordering, Levenberg-Marquardt or either dogleg, Jacobi scaling, mixed precision, dynamic sparsity, thread count, inner iterations) converges from any starting point to the unique minimiser, to within the accuracy the tolerances allow. Blocks held constant or confined to a subspace by a manifold give the minimiser of the correspondingly restricted problem.",
     ["inputs", "configurations"], "all block-structured full-rank linear problems x all trust-region configurations",
     "Existing system tests compare a few configurations on two fixed problems; agreement must hold for every block structure and every configuration.",
     [I+"trust_region_minimizer.cc", I+"levenberg_marquardt_strategy.cc", I+"dogleg_strategy.cc", I+"schur_complement_solver.cc", I+"sparse_normal_cholesky_solver.cc", I+"cgnr_solver.cc", I+"iterative_schur_complement_solver.cc", I+"reorder_program.cc"],
     [M("linear solver dispatch and reordering", I+"trust_region_preprocessor.cc: SetupLinearSolver"), M("trust region loop", I+"trust_region_minimizer.cc")],
     "generated linear problems; oracle is a dense QR solution in long double", "Exploration against a dense long-double reference.",
     observe=["user parameter arrays after Solve"])

prop("C03", "Equivalent formulations of a problem follow the same iterates",
     "Adding the same blocks to a problem in a different order, changing the number of threads, choosing another exact linear solver, giving a different valid elimination ordering, splitting one residual block into several, or removing and re-adding blocks does not change the sequence of iterates of a solve beyond rounding: the costs of the first iterations and the step decisions agree. The same call repeated on the same data with one thread (and without cluster preconditioners) reproduces the result bit for bit.",
     ["inputs", "configurations"], "pairs of equivalent formulations of the same generated nonlinear problem",
     "A metamorphic claim about all pairs of formulations; unit tests pin single runs.",
     [I+"reorder_program.cc", I+"program.cc", I+"parameter_block_ordering.cc", I+"trust_region_preprocessor.cc", I+"block_jacobian_writer.cc", I+"compressed_row_jacobian_writer.cc", I+"schur_complement_solver.cc"],
     [M("program reordering keeps offsets, layouts and state consistent", I+"reorder_program.cc"), M("Jacobian writers", I+"block_jacobian_writer.cc")],
     "metamorphic testing of Solve over generated problem pairs", "Exploration; comparison tolerances are scaled to rounding amplification and only early iterations are compared.")

prop("C04", "Bound constraints hold at every visible point and at the optimum",
     "Whenever parameter bounds are set, every point at which the trust-region solver calls the user's cost functions, every state shown to iteration callbacks after the first, and the final point satisfy all bounds of the free blocks exactly (a start outside its box is first projected onto it). When the solver reports convergence by the gradient tolerance, the returned point satisfies the first-order optimality conditions of the box-constrained problem to that tolerance, and convex problems whose coordinates do not interact are solved to those conditions. An infeasible constant block or an empty feasible interval is reported as a failure and leaves the parameters untouched.",
     ["inputs", "configurations"], "all bound patterns x starting points (inside, on, or outside the box) x trust-region configurations",
     "Tests use two or three fixed boxes; feasibility must hold for every iterate of every problem.",
     [I+"parameter_block.h", I+"program.cc", I+"trust_region_minimizer.cc", I+"line_search.cc"],
     [M("projection in Plus", I+"parameter_block.h: Plus"), M("projected gradient norm and projected line search", I+"trust_region_minimizer.cc"), M("IsFeasible", I+"program.cc")],
     "generated boxes and convex problems; feasibility invariant on every evaluation, KKT oracle at the end", "Exploration; KKT residual tolerance is scaled to problem size.")

prop("C05", "The iteration log is a truthful history and convergence claims are earned",
     "Successful iterations of a monotone solve never increase the cost, the logged cost and gradient norms of an accepted iterate equal those recomputed at that iterate, step counters equal the number of logged steps, and iteration numbers are consecutive and never exceed the limit. A solve that reports convergence has met a convergence criterion (gradient, parameter or function tolerance, or minimum trust-region radius) when that criterion is recomputed from the user's data, and with iteration limit zero nothing moves. Raising limits never makes the final cost worse, and in deterministic solves (one thread, no cluster preconditioner) a prefix of the log does not depend on the iteration limit.",
     ["inputs", "configurations", "histories"], "all generated problems x configurations; every iteration of every log",
     "Tests check single fields of single runs.",
     [I+"trust_region_minimizer.cc", I+"line_search_minimizer.cc", I+"callbacks.cc", I+"levenberg_marquardt_strategy.cc", I+"trust_region_step_evaluator.cc"],
     [M("iteration summary bookkeeping", I+"trust_region_minimizer.cc"), M("termination tests", I+"trust_region_minimizer.cc, "+I+"line_search_minimizer.cc")],
     "history invariants over generated solves, recomputed from callback snapshots", "Exploration; gradients recomputed from analytic derivatives in the harness.")

prop("C06", "Problem evaluation equals the mathematical definition",
     "Evaluating a problem, for any choice and order of parameter and residual blocks, with any losses, manifolds, constant blocks and thread count, returns exactly the cost, residuals, gradient and sparse Jacobian defined by the residual blocks: cost is half the sum of robustified squared norms, rows and columns follow the requested order, columns live in the tangent space, constant or omitted blocks contribute no columns, and the gradient is the derivative of the cost. The outputs do not depend on which of them were requested, the user's parameters are not modified, and evaluating a single residual block agrees with evaluating the problem.",
     ["inputs", "configurations"], "all problems x all evaluation options",
     "problem_test checks a few fixed three-block problems.",
     [I+"problem_impl.cc", I+"program_evaluator.h", I+"residual_block.cc", I+"program.cc", I+"compressed_row_jacobian_writer.cc", I+"scratch_evaluate_preparer.cc", I+"evaluator.cc"],
     [M("Problem::Evaluate", I+"problem_impl.cc: Evaluate"), M("per-block evaluation", I+"residual_block.cc: Evaluate")],
     "generated problems; oracle is a direct dense evaluation written from the documentation", "Exploration against an independent dense model.")

prop("C07", "Editing a problem always matches a simple set model",
     "After any sequence of adding, removing, fixing, freeing, bounding and re-manifolding parameter and residual blocks, every query (counts, sizes, membership, adjacency, constancy, manifold, bounds, cost/loss lookup, block enumeration) and every evaluation agrees with a plain model of the blocks present, whether or not fast removal or safety checks are enabled. Blocks set constant and then variable again regain their previous freedom.",
     ["histories"], "all finite sequences of problem edits",
     "Tests execute a few fixed edit scripts.",
     [I+"problem_impl.cc", I+"problem.cc", I+"program.cc", I+"parameter_block.h", I+"residual_block.cc"],
     [M("parameter map and residual block set", I+"problem_impl.cc"), M("swap-with-last removal", I+"problem_impl.cc: DeleteBlockInVector")],
     "stateful model-based testing of edit histories", "Exploration of generated histories against a reference model.")

prop("C08", "Owned objects live as long as needed and are destroyed exactly once",
     "Every cost function, loss function and manifold handed to a problem with ownership is destroyed exactly once, no earlier than the last block using it is gone and no later than the problem's destruction, however objects are shared between blocks, re-set, removed, or moved with the problem. Without ownership nothing is ever destroyed, and solving, evaluating or computing covariance never destroys or leaks user objects.",
     ["histories"], "all edit / solve / move / destroy histories with shared objects and both ownership modes",
     "Tests count deletions in two scripts; lifetime holds per history.",
     [I+"problem_impl.cc", E+"conditioned_cost_function.h", E+"loss_function.h", E+"product_manifold.h"],
     [M("reference-counted deletion", I+"problem_impl.cc"), M("ownership-taking wrappers", E+"loss_function.h, "+I+"conditioned_cost_function.cc")],
     "stateful testing with instrumented objects that record construction, use and destruction", "Exploration; use-after-destroy is detected by poisoned instrumented objects.")

prop("C09", "Dual numbers differentiate every supported function correctly",
     "For every arithmetic operator and every supported elementary function, applied to dual numbers in its domain of differentiability (where no intermediate result overflows), the scalar part equals the ordinary function of the scalar part and each infinitesimal part equals the analytic partial derivative times the incoming infinitesimals; this holds for nested dual numbers and for mixed dual/scalar operands. Comparisons, classification, min/max and selection functions look only at the scalar part and propagate the derivative of the selected argument, and the documented special cases of power functions are honoured.",
     ["inputs"], "all functions x all arguments, including signed zeros, tiny, huge and special values, nested duals",
     "jet_test samples a few points per function with hand-computed values.",
     [E+"jet.h", E+"internal/jet_traits.h"], [M("per-function derivative rules", E+"jet.h")],
     "generated arguments against multiprecision values and analytic derivatives computed in long double", "Exploration; tolerance of a few ulps scaled by the derivative's conditioning.")

prop("C10", "Automatic differentiation of cost functions is exact",
     "For every user functor and every block layout (static or dynamic, any number of blocks, residuals and passes), the automatically differentiated residuals equal the functor's values and every requested Jacobian equals the exact derivative in row-major layout, identically in the static, dynamic, first-order-function and manifold variants. Residuals and each requested Jacobian do not depend on which other Jacobians are requested; buffers not requested are never written, and a functor's failure is reported as failure.",
     ["inputs", "programs"], "random expression programs as functors x block layouts x sets of requested Jacobians",
     "Tests differentiate a few fixed functors.",
     [E+"internal/autodiff.h", E+"autodiff_cost_function.h", E+"dynamic_autodiff_cost_function.h", E+"autodiff_first_order_function.h", E+"autodiff_manifold.h", E+"internal/variadic_evaluate.h", E+"tiny_solver_autodiff_function.h"],
     [M("dual-number seeding and extraction", E+"internal/autodiff.h"), M("multi-pass dynamic evaluation", E+"dynamic_autodiff_cost_function.h")],
     "random expression programs; oracle is symbolic/forward differentiation in long double by the harness", "Exploration over generated expression programs.")

prop("C11", "Numeric differentiation is accurate and leaves inputs alone",
     "For every functor that is smooth in the region the step sizes reach, the forward, central and Ridders numeric Jacobians agree with the true derivative within the method's error bound, are exact in structure (right block, right row-major position), and the static, dynamic, first-order and adapter variants agree with each other. The user's parameter arrays are bit-identical before and after, residuals equal the functor's values, and failure at the base point or at a perturbed point is reported as failure.",
     ["inputs"], "all smooth random functors x layouts x methods x step sizes",
     "Tests use a few fixed functors.",
     [E+"internal/numeric_diff.h", E+"numeric_diff_cost_function.h", E+"dynamic_numeric_diff_cost_function.h", E+"numeric_diff_first_order_function.h", E+"numeric_diff_options.h"],
     [M("per-column differencing", E+"internal/numeric_diff.h")],
     "generated smooth functors with known derivatives; error-bound oracle", "Exploration with analytic error bounds (third/second derivative bounds of the generated functors).")

prop("C12", "Rotation conversions are mutually consistent",
     "Converting a rotation between angle-axis, quaternion, rotation matrix (either storage order) and Euler angles (any axis convention), in any chain, yields the same rotation: produced matrices are orthonormal with determinant one, produced quaternions are unit, angle-axis magnitudes are at most pi, and rotating a point by any representation gives the same point. This holds with correct derivatives through dual numbers near the zero rotation, near half turns and everywhere else, and calls documented to work in place give the same result.",
     ["inputs"], "all rotations (dense near 0 and pi), all Euler conventions, all storage orders, scalar and dual arguments",
     "rotation_test samples fixed and random points for some pairs of conversions only.",
     [E+"rotation.h", E+"internal/euler_angles.h"],
     [M("branching on small angles / trace / sign", E+"rotation.h")],
     "round-trip, homomorphism and differential oracles in long double over stratified rotations", "Exploration.")

prop("C13", "Manifolds obey the plus/minus laws and their Jacobians",
     "For every manifold (Euclidean, subset, both quaternion conventions, sphere, line, product and automatically differentiated ones; static or dynamic size), moving by zero stays put, moving stays on the manifold, minus inverts plus and plus inverts minus on the manifold, and the supplied Jacobians equal the true derivatives of plus at zero and minus at the point, with their product the identity. Right-multiplying by the plus Jacobian equals the explicit product, and fixed coordinates never change.",
     ["inputs"], "all points on the manifold, all tangent vectors within the injectivity radius, all products",
     "manifold_test checks random samples of fixed-size instances.",
     [I+"manifold.cc", E+"manifold.h", E+"sphere_manifold.h", E+"internal/sphere_manifold_functions.h", E+"line_manifold.h", E+"product_manifold.h", E+"autodiff_manifold.h", E+"internal/householder_vector.h"],
     [M("Plus/Minus and Jacobian formulas", E+"manifold.h")],
     "algebraic laws and finite-difference/long-double derivative oracles over generated manifolds", "Exploration.")

prop("C14", "Loss functions are consistent with their derivatives and definitions",
     "Every loss, including scaled and composed ones, returns its documented value and its true first and second derivatives at every non-negative squared norm, on both sides of and at its thresholds; robust losses start at zero with unit slope, are non-decreasing and never exceed the identity, and composition and scaling follow the chain rule. A wrapper's loss can be replaced between solves and always acts as the current one.",
     ["inputs"], "all losses x parameters x squared norms from 0 to very large",
     "loss_function_test evaluates a few points.",
     [I+"loss_function.cc", E+"loss_function.h"], [M("rho formulas", I+"loss_function.cc")],
     "generated parameters; oracle is an independent long-double dual-number definition", "Exploration.")

prop("C15", "Robustified residuals and Jacobians encode the robust objective",
     "When a loss is applied, the corrected residuals and Jacobian returned by evaluation reproduce the robust problem: their gradient J'r equals the gradient of the robust cost, and their Gauss-Newton matrix J'J equals the documented second-order (Triggs) approximation wherever it is positive definite and its documented safe fallback elsewhere. With no loss, or a trivial one, residuals and Jacobians are returned unchanged.",
     ["inputs"], "all residuals and Jacobians (zero, tiny, huge, outliers) x all loss derivatives",
     "corrector_test covers a few scalar cases.",
     [I+"corrector.cc", I+"corrector.h", I+"residual_block.cc"], [M("Triggs correction", I+"corrector.cc")],
     "generated residuals, Jacobians and losses; algebraic oracle from the documentation", "Exploration.")

prop("C16", "Covariances are the inverse of the normal matrix",
     "For every well-posed problem each covariance algorithm returns, for every requested pair of blocks in any order, the corresponding block of the (pseudo-)inverse of J'J at the current values, with robust losses and constant blocks accounted for: symmetric, positive semi-definite, transposed for the swapped pair, zero for constant blocks, and lifted from tangent to ambient space consistently. Rank-deficient problems are reported as failures by algorithms that cannot handle them instead of returning numbers.",
     ["inputs", "configurations"], "all problems x requested block lists x algorithms x null-space settings",
     "covariance_test uses one fixed six-parameter problem.",
     [I+"covariance_impl.cc", I+"covariance.cc", I+"compressed_col_sparse_matrix_utils.cc"], [M("covariance sparsity and solves", I+"covariance_impl.cc")],
     "generated problems; dense long-double reference inverse", "Exploration.")

prop("C17", "Every linear solver returns the regularised least squares solution",
     "For every block-sparse matrix, right-hand side and diagonal regulariser for which the problem has a unique solution, each exact linear solver (dense QR, dense and sparse normal equations, dense and sparse elimination, with or without mixed precision plus refinement, reused for several values) returns that solution, and the iterative ones do when iterated to convergence with any preconditioner. Inputs are not modified, and a singular system is reported as failure rather than answered silently.",
     ["inputs", "configurations"], "all block structures (any block sizes, elimination counts, empty blocks) x solver types x options x threads",
     "Tests solve two or three fixed systems.",
     [I+"linear_solver.cc", I+"dense_qr_solver.cc", I+"dense_qr.cc", I+"dense_cholesky.cc", I+"sparse_cholesky.cc", I+"eigensparse.cc", I+"schur_complement_solver.cc", I+"cgnr_solver.cc", I+"iterative_schur_complement_solver.cc", I+"conjugate_gradients_solver.h", I+"iterative_refiner.cc", I+"dynamic_sparse_normal_cholesky_solver.cc", I+"inner_product_computer.cc"],
     [M("solver factory", I+"linear_solver.cc"), M("factorisation and refinement", I+"sparse_cholesky.cc, "+I+"iterative_refiner.cc")],
     "differential testing of all solver types against a dense long-double solution", "Exploration.")

prop("C18", "Sparse and block matrices agree with dense linear algebra",
     "Every sparse matrix representation (block, compressed row, triplet, dense wrapper, dynamic compressed row, random-access block matrices) represents a well-defined dense matrix, and every operation on it (products from either side with any thread count, column norms and scaling, conversion, transposition, appending and deleting rows or blocks, inner products, diagonal blocks) gives the result of the same dense operation. Conversions round-trip.",
     ["inputs", "histories"], "all block structures and operation sequences",
     "Per-class tests use small fixed matrices.",
     [I+"block_sparse_matrix.cc", I+"compressed_row_sparse_matrix.cc", I+"triplet_sparse_matrix.cc", I+"dense_sparse_matrix.cc", I+"dynamic_compressed_row_sparse_matrix.cc", I+"block_random_access_sparse_matrix.cc", I+"block_random_access_diagonal_matrix.cc", I+"block_random_access_dense_matrix.cc", I+"inner_product_computer.cc", I+"compressed_col_sparse_matrix_utils.cc", I+"linear_operator.cc"],
     [M("index structures", I+"block_structure.h, "+I+"compressed_row_sparse_matrix.h")],
     "stateful comparison of operation sequences with a dense matrix model", "Exploration.")

prop("C19", "Variable elimination is exact for every block structure",
     "For every block-structured matrix whose leading columns form an eliminable set, eliminating those columns gives exactly the Schur complement and reduced right-hand side, back-substitution recovers exactly the eliminated variables, and the implicit (matrix-free) and partitioned views multiply like the corresponding dense blocks. The result is the same for every specialised block size, the fully dynamic code, any chunking and any number of threads.",
     ["inputs", "configurations"], "all row/e/f block size combinations, chunk layouts, thread counts, with and without regulariser",
     "schur_eliminator_test uses two fixed problems, mostly dynamic sizes.",
     [I+"schur_eliminator_impl.h", I+"schur_eliminator.h", I+"schur_eliminator.cc", I+"schur_templates.cc", I+"partitioned_matrix_view_impl.h", I+"implicit_schur_complement.cc", I+"detect_structure.cc", I+"small_blas.h"],
     [M("chunked elimination with per-thread buffers", I+"schur_eliminator_impl.h"), M("template selection", I+"schur_eliminator.cc, "+I+"partitioned_matrix_view.cc")],
     "generated block structures for every specialisation; dense Schur complement oracle", "Exploration.")

prop("C20", "Preconditioners are what they claim and never break convergence",
     "Each preconditioner applied to any matrix with a positive definite normal matrix is a symmetric positive definite operator; block Jacobi and Schur Jacobi equal the inverse of the block diagonal of the (Schur-complemented) normal matrix, the subset preconditioner equals the inverse of the normal matrix of the chosen rows, the power-series preconditioner equals its truncated series, and the cluster preconditioners invert the cluster-masked Schur complement. Applying one to a fresh matrix uses only that matrix.",
     ["inputs", "configurations"], "all block structures x regularisers x preconditioner options, several updates in a row",
     "Tests check one fixed problem per preconditioner.",
     [I+"block_jacobi_preconditioner.cc", I+"schur_jacobi_preconditioner.cc", I+"subset_preconditioner.cc", I+"power_series_expansion_preconditioner.cc", I+"visibility_based_preconditioner.cc", I+"preconditioner.cc", I+"visibility.cc", I+"canonical_views_clustering.cc", I+"single_linkage_clustering.cc"],
     [M("Update and RightMultiplyAndAccumulate", I+"*_preconditioner.cc")],
     "generated matrices; dense operator reconstructed column by column", "Exploration.")

prop("C21", "Trust-region steps obey the model they come from",
     "For every Jacobian, residual and radius, the Levenberg-Marquardt step minimises the damped model with the clamped diagonal, and a dogleg step stays within the (scaled) trust region, decreases the quadratic model at least as much as the Cauchy point, and equals the Gauss-Newton step when that fits (the subspace variant at least matching the traditional one). Accepting, rejecting or invalidating steps changes the radius by the documented rules and never beyond its limits, and after a rejected step the recomputed step is consistent with the smaller region.",
     ["inputs", "histories"], "all Jacobians, residuals, radii and accept/reject histories",
     "Tests take one or two steps on fixed matrices.",
     [I+"levenberg_marquardt_strategy.cc", I+"dogleg_strategy.cc", I+"trust_region_strategy.cc", I+"trust_region_step_evaluator.cc"],
     [M("radius update rules", I+"levenberg_marquardt_strategy.cc, "+I+"dogleg_strategy.cc"), M("non-monotone reference cost", I+"trust_region_step_evaluator.cc")],
     "stateful testing of accept/reject histories against a dense model", "Exploration.")

prop("C22", "Line searches return points satisfying their conditions",
     "For every smooth function with a descent direction, a successful Armijo search returns a step satisfying the sufficient-decrease condition and a successful Wolfe search a step satisfying decrease and, unless it reports falling back, curvature; reported values and gradients at that step equal the function's, and the number of evaluations respects the limits. Interpolating polynomials reproduce their samples, their roots are roots, and the minimiser over an interval lies inside it and is no worse than any other point of it.",
     ["inputs"], "all smooth univariate restrictions, initial steps, line-search options; all polynomials and sample sets",
     "polynomial_test and solver tests sample fixed inputs.",
     [I+"line_search.cc", I+"polynomial.cc", I+"function_sample.cc"],
     [M("bracketing and zoom", I+"line_search.cc"), M("interpolation and root finding", I+"polynomial.cc")],
     "generated functions and polynomials; condition predicates as oracle", "Exploration.")

prop("C23", "General unconstrained minimisation is monotone and truthful",
     "Minimising any differentiable function (with or without a manifold) through the gradient-problem interface never returns a higher cost than it started from; the reported costs equal the function at the initial and returned parameters, convergence reports are backed by the recomputed gradient or step, and convex quadratics are solved to the minimiser by every direction type under the Wolfe line search. The search directions are descent directions for every update formula, and the limited-memory inverse Hessian acts as the textbook product of its stored corrections.",
     ["inputs", "configurations"], "all smooth functions x line-search option sets; all correction histories",
     "Tests run Rosenbrock once.",
     [I+"gradient_problem_solver.cc", I+"line_search_minimizer.cc", I+"line_search_direction.cc", I+"low_rank_inverse_hessian.cc", I+"gradient_problem.cc", I+"gradient_problem_evaluator.h"],
     [M("direction updates", I+"line_search_direction.cc"), M("two-loop recursion", I+"low_rank_inverse_hessian.cc")],
     "generated functions and option sets; recomputed costs/gradients and dense BFGS reference", "Exploration.")

prop("C24", "Parallel primitives execute every index exactly once",
     "For any range, thread count, block size, weight profile and nesting, the parallel loop calls its body exactly once for every index and on no other, each thread id handed out is in range and never used by two bodies at once, and the call returns only after all bodies finished. The thread pool runs every submitted task exactly once even while growing or shutting down, and the concurrent queue neither loses, duplicates nor reorders items and wakes all waiters on shutdown; evaluations, solves and covariance computations that use several threads contain no data race.",
     ["schedules", "inputs"], "all schedules reachable by real threads with perturbed timing, all ranges and sizes",
     "Thread tests exercise a few sizes on the schedules that happen to occur.",
     [I+"parallel_for.h", I+"parallel_invoke.h", I+"parallel_invoke.cc", I+"partition_range_for_parallel_for.h", I+"thread_pool.cc", I+"thread_token_provider.cc", I+"concurrent_queue.h", I+"parallel_vector_ops.h", I+"parallel_utils.cc"],
     [M("work-block counters and thread tokens", I+"parallel_invoke.h"), M("blocking queue", I+"concurrent_queue.h")],
     "generated sizes with random delays injected inside bodies; counting oracle", "Exploration of schedules that real threads reach under injected delays; rare interleavings can be missed.")

prop("C25", "Orderings are valid: permutations, independent sets and groups",
     "Every ordering computed for a problem is a permutation of its active blocks, the first elimination group is always an independent set (no residual touches two of its members), residual blocks are grouped by the eliminated block they touch, and orderings supplied by the user are honoured or rejected with an explanation. Group containers behave as a map from elements to groups under any edit history.",
     ["inputs", "histories"], "all bipartite problem graphs and ordering edit histories",
     "graph and ordering tests use fixed small graphs.",
     [I+"graph_algorithms.h", I+"graph.h", I+"parameter_block_ordering.cc", I+"reorder_program.cc", E+"ordered_groups.h", I+"coordinate_descent_minimizer.cc", I+"compressed_col_sparse_matrix_utils.cc"],
     [M("independent set ordering", I+"graph_algorithms.h"), M("program reordering", I+"reorder_program.cc")],
     "generated graphs and problems; validity predicates and a map model", "Exploration.")

prop("C26", "Cubic interpolation is interpolating, smooth and exact on low degrees",
     "One- and two-dimensional cubic interpolation returns the sample at every sample point, is continuously differentiable everywhere including across cell boundaries and into the clamped exterior, reproduces polynomials up to the method's degree in the interior, and its returned derivatives are the derivatives of its returned value, for every data dimension, storage order, interleaving and index range. Evaluation with dual numbers agrees with evaluation with scalars, and data outside the grid is never read.",
     ["inputs"], "all grids, layouts and query points including cell edges and far outside",
     "Tests use a few cubic functions on one grid.",
     [E+"cubic_interpolation.h"], [M("Catmull-Rom spline and clamped grids", E+"cubic_interpolation.h")],
     "generated grids and points; independent spline evaluation and guard-banded buffers", "Exploration.")

prop("C27", "The tiny solver minimises without the full framework",
     "For every functor with correct derivatives the tiny solver terminates, never returns a cost above the initial one, reports initial and final costs that equal half the squared residual norm at the initial and returned parameters, reports a stopping status that is true when recomputed, and solves full-rank linear problems to the minimiser; static, dynamic, auto-differentiated and adapted cost functions give the same result, and a solver object can be reused.",
     ["inputs", "configurations"], "all residual functors, sizes, options and reuse histories",
     "tiny_solver_test runs a handful of starting points on one functor.",
     [E+"tiny_solver.h", E+"tiny_solver_autodiff_function.h", E+"tiny_solver_cost_function_adapter.h"], [M("LM loop", E+"tiny_solver.h")],
     "generated functors and options; recomputed costs/gradients and dense reference", "Exploration.")

prop("C28", "Callbacks are called by the documented protocol",
     "Iteration callbacks run once per logged iteration, in order, see the state they were promised (current values when state updates were requested, untouched user arrays otherwise) and can stop the solve with exactly the documented outcome. An evaluation callback is notified before residuals or Jacobians are evaluated at any point, with flags that truthfully say whether the point is new and whether Jacobians follow, and user arrays hold the evaluated point at that moment.",
     ["histories", "configurations"], "all solves x callback return sequences x minimizers",
     "Tests use fixed scripts on tiny problems.",
     [I+"callbacks.cc", I+"minimizer.cc", I+"program_evaluator.h", I+"evaluator.h", I+"line_search.cc", I+"preprocessor.cc", I+"gradient_problem_solver.cc"],
     [M("RunCallbacks", I+"minimizer.cc"), M("state updating callback", I+"callbacks.cc"), M("PrepareForEvaluation", I+"program_evaluator.h")],
     "generated solves with recording callbacks; protocol automaton as oracle", "Exploration of histories.")

prop("C29", "Failing or non-finite user code never corrupts a solve",
     "Whatever evaluations of the user's cost functions, manifolds or callbacks fail (return false) or produce non-finite values, at any point of a solve, the solve terminates without crashing, treats failures at trial points as rejected steps, fails cleanly when the initial point cannot be evaluated, and leaves in the user's arrays either the original values (unusable) or a point that was evaluated successfully and costs no more than the start. Evaluation and covariance report the failure instead of returning data.",
     ["fault_sequences", "inputs"], "all sequences of injected evaluation failures / NaN / Inf / exceptions of value, at any call index",
     "Tests inject a failure at one or two places.",
     [I+"trust_region_minimizer.cc", I+"line_search_minimizer.cc", I+"line_search.cc", I+"residual_block.cc", I+"residual_block_utils.cc", I+"program_evaluator.h", I+"array_utils.cc", I+"coordinate_descent_minimizer.cc"],
     [M("evaluation validity checks", I+"residual_block_utils.cc"), M("abort flag across threads", I+"program_evaluator.h")],
     "fault injection at generated call indices; safety oracle", "Exploration of fault sequences.")

prop("C30", "Gradient checking accepts right Jacobians and rejects wrong ones",
     "Probing a cost function whose Jacobians are correct (and which is smooth on the scale of the finite-difference steps) reports success, and one whose Jacobian is wrong in any single entry by clearly more than the tolerance reports failure naming the discrepancy, with manifolds taken into account. A solve with gradient checking enabled succeeds or fails accordingly, leaves the user's problem usable, and otherwise gives the same result as without checking.",
     ["inputs"], "all smooth cost functions x single-entry Jacobian perturbations x manifolds x precisions",
     "Tests perturb one fixed functor.",
     [I+"gradient_checker.cc", I+"gradient_checking_cost_function.cc", I+"is_close.cc"], [M("Probe", I+"gradient_checker.cc")],
     "generated functors with injected derivative errors; two-sided oracle", "Exploration.")

prop("C31", "Cost function adapters compose as mathematics says",
     "Wrapping a cost function as a functor (static or dynamic), conditioning its residuals, using it as a prior, or adapting it to another interface yields the residuals and Jacobians of the composed mathematical function for scalars and dual numbers alike, for any requested subset of Jacobians, and propagates failure.",
     ["inputs"], "all cost functions x wrappers x requested Jacobian sets",
     "Tests use one or two fixed functors per wrapper.",
     [E+"cost_function_to_functor.h", E+"dynamic_cost_function_to_functor.h", I+"dynamic_cost_function_to_functor.cc", I+"conditioned_cost_function.cc", I+"normal_prior.cc", E+"tiny_solver_cost_function_adapter.h"],
     [M("chain rule on dual arguments", E+"dynamic_cost_function_to_functor.h")],
     "generated functions and wrappings; chain-rule oracle", "Exploration.")

prop("C32", "Solver options are validated, and valid options always work",
     "Every option value the documentation forbids is rejected with a message and a failed summary while the user's parameters stay untouched, and every option set that validates can be used on any well-formed problem without crashing, with the summary reporting the options given and actually used. Enumeration names round-trip through their string forms, and reports can always be produced.",
     ["configurations"], "all option combinations, valid and invalid",
     "solver_test checks individual options one at a time.",
     [I+"solver.cc", E+"solver.h", I+"types.cc", I+"linear_solver.cc", I+"preconditioner.cc", I+"trust_region_preprocessor.cc", I+"line_search_preprocessor.cc", I+"gradient_problem_solver.cc"],
     [M("IsValid", I+"solver.cc"), M("string tables", I+"types.cc")],
     "generated option sets against an independent statement of the documented constraints", "Exploration.")

prop("C33", "The C interface gives the same answers as the C++ one",
     "Building and solving a problem through the C interface, with any residual layout and any of the stock or user-supplied loss functions, gives the same result as building the same problem in C++, invoking the user's callbacks only with the documented arguments, and frees everything it allocated.",
     ["inputs"], "all small problems expressible in the C interface",
     "c_api_test fits one curve.",
     [I+"c_api.cc", E+"c_api.h"], [M("callback wrapping", I+"c_api.cc")],
     "differential testing of C versus C++ construction", "Exploration.")

prop("C34", "No valid use touches memory it should not",
     "For every well-formed problem and configuration, constructing, editing, evaluating, solving and computing covariances performs no out-of-bounds or use-after-free access, no read of uninitialised results, no undefined arithmetic, and writes only to the buffers it was given.",
     ["inputs", "configurations", "histories"], "all API histories on generated problems, under address and undefined-behaviour sanitizers with coverage of every linear solver",
     "Plain tests pass silently on most memory errors.",
     [I+"problem_impl.cc", I+"program.cc", I+"block_jacobian_writer.cc", I+"compressed_row_jacobian_writer.cc", I+"schur_eliminator_impl.h", I+"small_blas.h", I+"covariance_impl.cc", I+"dense_cholesky.cc", E+"internal/autodiff.h"],
     [M("offset and layout computations", I+"program.cc, "+I+"block_jacobian_writer.cc")],
     "sanitized execution of generated API histories with exact-size heap buffers", "Exploration under AddressSanitizer and UBSan; uninitialised reads only as far as poisoned buffers reveal them.")

prop("C35", "Small dense kernels compute what they are named for",
     "The fixed- and dynamic-size block products, block assignments, positive semi-definite inversion, dense factorisations, Householder reflections and vector reductions give the dense linear-algebra result for every size, stride, accumulation mode, alignment and thread count, without writing outside their target block.",
     ["inputs"], "all sizes (static and dynamic), strides, accumulation modes and ranks",
     "small_blas tests enumerate some sizes; not all combinations of static and dynamic sizes and strides.",
     [I+"small_blas.h", I+"small_blas_generic.h", I+"invert_psd_matrix.h", I+"dense_cholesky.cc", I+"dense_qr.cc", I+"parallel_vector_ops.h", I+"eigen_vector_ops.h", E+"internal/householder_vector.h", E+"internal/array_selector.h"],
     [M("template kernels", I+"small_blas.h")],
     "generated operands; long-double dense oracle with guard bands", "Exploration.")

prop("C36", "Clustering and visibility structures are faithful to the problem",
     "Visibility computed from a block structure lists exactly the eliminated blocks each remaining block shares a row with, the weighted interaction graph contains exactly the co-visible pairs with the documented overlap weights, clusterings are partitions whose merges respect the similarity threshold, and degree-two spanning forests are acyclic and leave out only edges that heavier chosen edges rule out. Graph containers behave as sets of vertices and weighted edges under any edit history, self edges included.",
     ["inputs"], "all block structures and weighted graphs",
     "Tests use one or two hand-made graphs.",
     [I+"visibility.cc", I+"single_linkage_clustering.cc", I+"canonical_views_clustering.cc", I+"graph_algorithms.h", I+"graph.h"],
     [M("visibility graph", I+"visibility.cc"), M("maximum spanning forest", I+"graph_algorithms.h")],
     "generated graphs; brute-force reference algorithms", "Exploration.")

prop("C37", "Reusing a problem gives the same answer as starting fresh",
     "After any history of solves, evaluations, covariance computations and edits, a further solve or evaluation behaves exactly as on a freshly built problem in the same state: nothing from earlier solves (iteration state, orderings given by the user, offsets, thread pools, cached structure) leaks into later ones, and the options object passed in can be reused for other calls.",
     ["histories"], "all interleavings of solve / evaluate / covariance / edit on one problem and one options object",
     "Tests almost always use a problem once.",
     [I+"solver.cc", I+"problem_impl.cc", I+"program.cc", I+"trust_region_preprocessor.cc", I+"line_search_preprocessor.cc", I+"covariance_impl.cc", I+"context_impl.cc"],
     [M("state restoration after a solve", I+"solver.cc: Solve"), M("restoration after evaluation", I+"problem_impl.cc: Evaluate")],
     "stateful differential testing: long-lived problem versus freshly built twin", "Exploration of histories.")

prop("C38", "Inner iterations only ever help",
     "With inner iterations enabled, for any valid inner ordering (automatic or given), an accepted outer iteration costs no more than it would after its trust-region step alone, constant blocks and bounds stay respected, and the coordinate-descent sweep itself never increases the cost and leaves the problem's bookkeeping as it found it; invalid inner orderings are rejected with an explanation.",
     ["inputs", "configurations"], "all problems x valid and invalid inner orderings",
     "Tests cover ordering checks and two problems.",
     [I+"coordinate_descent_minimizer.cc", I+"trust_region_minimizer.cc", I+"trust_region_preprocessor.cc"],
     [M("per-block sub-solves", I+"coordinate_descent_minimizer.cc")],
     "generated problems and orderings; monotonicity and validity oracle", "Exploration.")


def seeded():
    """The table of planted bugs in DESIGN.md."""
    f = f"{V}/tools/caught.json"
    caught = json.load(open(f)) if os.path.exists(f) else {}
    t = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(f"{V}/seeded") + os.listdir(f"{V}/planted")):
        d = "seeded" if os.path.isdir(f"{V}/seeded/{i}") else "planted"
        m = json.load(open(f"{V}/{d}/{i}/meta.json"))
        c = caught.get(i)
        by = "not run" if c is None else (c["by"].replace("FAILED ", "") if c["rc"] == 1 else "MISSED")
        t.append(f"| {i} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {by} |")
    s = open(f"{V}/DESIGN.md").read()
    a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
    open(f"{V}/DESIGN.md", "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(t) + "\n" + s[b:])

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(f"{V}/props/{p['id']}.cc"):
            checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                           "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": "property-based testing: " + p["technique"], "level": "exploration",
                           "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "Not claimed yet: the harness is still being built."})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
         "notes": "Harnesses link ceres-solver built from /repo's working tree (all library sources, Eigen-only "
                  "configuration) with a small stand-in for absl/log in /verif/shim; no hooks in /repo are needed."}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    seeded()
    print(len(P), "properties,", len(checks), "claimed")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        if n > 3: print("too many sentences", p["id"], n)
main()
