TODO = "check under construction in this session; not claimed until its specification is bound to the code"
T_REPLAY = "TLA+/TLC: exhaustive state graph replayed on the code + TLC validation of recorded traces"
CORE = "theseus/core/"
OPT = "theseus/optimizer/"
NL = "theseus/optimizer/nonlinear/"
GEO = "theseus/geometry/"
EMB = "theseus/embodied/"

prop("P01", "Objective registry mirrors the registered cost functions",
 "After any sequence of adding and erasing cost functions (including shared variables and weights, re-adding, erasing unknown names), the cost functions, optimisation variables and auxiliary variables the objective reports, their order, its dimension and the functions it reports as connected to each variable are exactly those reachable from the cost functions currently registered. An add that is rejected for a name, type or optimisation/auxiliary clash leaves all of them unchanged.",
 ["histories", "inputs"], "every add/erase history over every catalog of cost functions, variables, weights, names and sharing patterns",
 "tests add and erase a handful of mock functions once; they never interleave adds and erases over shared variables and weights nor look at the registry after a rejected add",
 [CORE + "objective.py", CORE + "theseus_function.py"],
 [("registration and reference lists per variable", CORE + "objective.py: add/_add_function_variables"),
  ("erase with last-user removal", CORE + "objective.py: erase/_erase_function_variables")],
 [("registered cost functions", "insertion ordered", "Objective.cost_functions"), ("variables", "insertion ordered, removed with the last user", "Objective.optim_vars, aux_vars")],
 ["Objective.cost_functions/optim_vars/aux_vars, get_functions_connected_to_*, dim, size*, has_*/get_*"],
 "Registry.tla explored exhaustively on a fixed catalog with every transition replayed on a real Objective, plus random catalogs/histories validated by TLC; bounded by catalog size; cost functions are toy ones",
 T_REPLAY)

prop("P02", "Copying an objective is faithful and independent",
 "The copy of an objective has the same named cost functions and variables in the same order, the same sharing of variables and weights between its parts, and the same errors and jacobians; afterwards no update of either one is visible in the other, while every update inside the copy reaches each of its cost functions and weights. The same holds for each shipped cost function, cost weight, variable and group type that is copied on its own.",
 ["histories", "inputs"], "every objective built from the shipped cost function, weight, robust and autodiff types with any sharing pattern, and every interleaving of updates to original and copy",
 "tests copy objectives of mock functions and compare tensors once; they do not update after copying with robust or motion-model costs sharing variables",
 [CORE + "objective.py", CORE + "theseus_function.py", CORE + "robust_cost_function.py", CORE + "cost_function.py", EMB],
 [("copy then relink by name", CORE + "objective.py: copy"), ("per-type _copy_impl", "all cost functions")],
 level_note='CopyMC.tla: exhaustive graph of copies of copies with updates and erases replayed on real objectives; random catalogs and histories validated by CopyTrace.tla; shipped cost types, parts and settings judged by Vec.tla', technique=T_REPLAY)

prop("P03", "Updates bind tensors by name and keep batch sizes consistent",
 "Updating an objective with a dictionary changes exactly the named variables to exactly the given values (element-wise only where the ignore mask is off), ignores unknown names, and leaves the objective's batch size equal to the common batch size of all its variables with size-1 tensors broadcasting. Inputs of wrong rank, shape or dtype, or sets of tensors that cannot be broadcast, are rejected with an error.",
 ["histories", "inputs"], "every sequence of updates, masks, batch sizes and names",
 "tests use two batch sizes and full updates; no mixed histories of masked, partial and rejected updates",
 [CORE + "objective.py", CORE + "variable.py", GEO + "manifold.py", GEO + "lie_group.py"],
 [("update", CORE + "objective.py: update/_resolve_batch_size"), ("Variable.update mask", CORE + "variable.py")],
 level_note='Store.tla: exhaustive graph of a small catalog replayed on real objectives with toy cost functions, plus random catalogs and histories validated by TLC; bounded by catalog size, batch size and history length', technique=T_REPLAY)

prop("P04", "Error evaluation: order, weighting and temporary inputs",
 "The error vector is the concatenation of all weighted cost errors in the order the cost functions were added, and the objective's metric is the given aggregation of it (half the squared norm by default), at the variables' current values. Evaluating it with input tensors uses those values and, unless a persistent update is requested, leaves every variable of the objective as it was before.",
 ["histories", "inputs"], "every history of add, erase, update and error evaluations with and without inputs, persistence and vectorization",
 "tests evaluate errors of a few fixed problems; never with auxiliary inputs that should be reverted or with interleaved cost function types",
 [CORE + "objective.py", CORE + "vectorizer.py"],
 [("error", CORE + "objective.py: error/error_metric")],
 level_note='Store.tla: exhaustive graph replayed on real objectives, plus random catalogs/histories with interleaved types, weights and metrics validated by TLC; toy cost functions with exact integer errors', technique=T_REPLAY)

prop("P05", "Vectorization never changes results",
 "With vectorization enabled, the weighted errors, weighted jacobians, linear systems and variable updates an objective produces equal those of evaluating every cost function separately at the current variable values. This holds for every mix of cost function types, shared variables and weights, batch sizes, zero weights, and after every history of updates, retractions, adds, erases and gradient-mode changes.",
 ["histories", "inputs", "configurations"], "every objective structure and every history of state-changing calls, vectorization on or off",
 "tests compare vectorized and unvectorized results at construction for fixed structures; stale-cache histories and interleaved types are not explored",
 [CORE + "vectorizer.py", CORE + "objective.py"],
 [("schema grouping and shared/expanded tensors", CORE + "vectorizer.py"), ("update counters deciding cache refresh", CORE + "objective.py: _vectorization_needs_update")],
 level_note='Store.tla graph replayed with vectorization on throughout; random histories over all shipped cost, weight and robust types judged by Vec.tla against separately evaluated parts (1e-6 fixed point); optimisation variables share the batch size', technique=T_REPLAY)

prop("P06", "Cost weights and robust losses scale errors and jacobians consistently",
 "A scale or diagonal weight multiplies the error and every jacobian row by the same per-batch factors, and zero weights yield zero weighted error and jacobians without affecting other batch elements. A robust cost's weighted error has squared norm equal to the loss of the squared norm of the weighted inner error (per dimension when flattened), and its rescaled jacobians and error give that loss's gradient.",
 ["inputs", "configurations"], "all weights, errors, jacobians, radii, batch sizes and loss types on the exact grid",
 "tests check a few random values per class with loose tolerances; the region boundary, flattening and zero-weight batches are not crossed",
 [CORE + "cost_weight.py", CORE + "robust_cost_function.py", CORE + "robust_loss.py", CORE + "cost_function.py"],
 [("weighting", CORE + "cost_weight.py"), ("robust rescaling", CORE + "robust_cost_function.py")],
 level_note='WeightsMC.tla: grid of every loss, weight kind and flattening with exact rational results, replayed plain, vectorized and differentiated; random batches judged by WeightsTrace.tla', technique=T_REPLAY)

prop("P07", "Linearization stacks errors and jacobians in variable order",
 "For every objective and variable ordering, the linear system's matrix holds each weighted jacobian block at the rows of its cost function and the columns of its variable, and its right-hand side is the negated weighted error; dense and sparse linearization represent the same system, normal matrix, gradient, diagonal scaling and matrix-vector product. A linearization reflects the variable values at the time it is computed.",
 ["inputs", "configurations", "histories"], "every objective structure, ordering, batch size and sequence of re-linearizations",
 "tests use one structure per linearization and default ordering",
 [OPT + "linearization.py", OPT + "dense_linearization.py", OPT + "sparse_linearization.py", OPT + "variable_ordering.py"],
 [("block layout", OPT + "linearization.py"), ("CSR structure", OPT + "sparse_linearization.py")],
 level_note='OrderingMC.tla graph replayed exhaustively; LinTrace.tla judges random structures, orderings and histories of dense and sparse linearizations exactly (integers); shipped costs by Vec.tla', technique=T_REPLAY)

prop("P08", "Linear solvers solve the damped normal equations",
 "For every nonsingular linear system in the batch, each linear solver returns the solution of the normal equations with the requested additive or diagonal-scaled damping applied per batch element, in the precision of the problem, and all solvers and linearizations agree. Singular elements are reported or given zero updates as configured, without disturbing the others, and repeated solves with new values never reuse old numbers.",
 ["inputs", "configurations", "histories"], "every integer-valued system, damping vector, solver and sequence of solves",
 "tests draw well-conditioned random systems; mixed singular batches, float64 singular handling and sequences of solves are not covered",
 [OPT + "linear/dense_solver.py", OPT + "linear/cholmod_sparse_solver.py", OPT + "autograd/cholmod_sparse_autograd.py"],
 [("damping", OPT + "linear/utils.py, dense_solver.py"), ("factor reuse", OPT + "linear/cholmod_sparse_solver.py")],
 level_note="Exact Cramer's-rule judgement (LinSolve.tla) of every recorded solve of LU / Cholesky / CHOLMOD, with all damping forms, check_singular, detached hessian and gradients", technique=T_REPLAY)

prop("P09", "Optimizer loop: steps, stopping, convergence and reported history",
 "The nonlinear optimizer applies the solver's step scaled by the step size to every batch element that has not converged and to no other, stops exactly when all elements converged, the iteration budget is spent or the linear solver fails, and marks an element converged only by the documented tolerances. The returned info (status, per-element convergence iteration, error and state histories, best error and best solution) is exactly what that history of iterations produced, and the variables are left at the final iterate.",
 ["histories", "inputs", "fault_sequences"], "every sequence of per-element errors, accepted steps, solver failures, tolerances and options over the iterations",
 "tests run a few problems to convergence and check the final error; per-element freezing, histories and failure iterations are not asserted",
 [NL + "nonlinear_optimizer.py", NL + "nonlinear_least_squares.py", NL + "gauss_newton.py"],
 [("loop", NL + "nonlinear_optimizer.py: _optimize_loop"), ("info bookkeeping", NL + "nonlinear_optimizer.py: _update_info")],
 level_note='NlsMC.tla: exhaustive graph of the optimizer loop over cells (errors, steps, rejections, failures) replayed on the real optimizers; random scripted problems, tolerances, modes and options validated by OptTrace.tla; exact dyadic numbers', technique=T_REPLAY)

prop("P10", "Levenberg-Marquardt damping follows the accept/reject rule",
 "With adaptive damping, a step is kept for a batch element exactly when its actual-to-predicted reduction ratio exceeds the acceptance threshold, otherwise that element's variables stay unchanged; its damping is multiplied or divided by the configured factors accordingly and stays within its bounds, independently of the other elements. Without adaptation the configured damping is used at every iteration, and every run starts from its configured damping.",
 ["histories", "inputs"], "every sequence of error outcomes per element and iteration",
 "tests only check that LM converges and that damping changes; not which elements move",
 [NL + "levenberg_marquardt.py"],
 [("complete_step", NL + "levenberg_marquardt.py")],
 level_note='NlsMC.tla/OptTrace.tla: every accept/reject decision, damping value and frozen variable of recorded runs recomputed from the recorded errors and predicted reductions; scripted cell problems with exact numbers', technique=T_REPLAY)

prop("P11", "Dogleg trust region bounds and adapts its steps",
 "Each trust-region step of an element is the Gauss-Newton step when it fits its region, otherwise the dogleg point on the region's boundary or the truncated steepest-descent step, so the scaled step length never exceeds the radius. The radius shrinks or grows by the configured factors from each element's own reduction ratio, and rejected elements keep their variables.",
 ["histories", "inputs"], "every sequence of quadratic models, radii and outcomes per element",
 "tests check convergence on sample problems only",
 [NL + "trust_region.py", NL + "dogleg.py"],
 [("step selection", NL + "dogleg.py"), ("radius update", NL + "trust_region.py")],
 level_note='OptTrace.tla/Steps.tla: step selection (Gauss-Newton, boundary, Cauchy), radius update and rejection of recorded dogleg runs recomputed exactly; scripted cell problems', technique=T_REPLAY)

prop("P12", "Layer forward and backward modes agree",
 "For every backward mode the layer's forward pass returns the same optimised values as running the optimizer directly on the same inputs, uses the inputs it was given, and its gradients with respect to the inputs equal the derivative of the converged solution wherever the Gauss-Newton model is exact at it (linear or zero-residual problems). Layers and optimizers refuse to run once their objective's structure was changed after construction.",
 ["inputs", "histories", "configurations"], "every linear-quadratic problem on the grid, mode, batch size and history of forward calls and objective edits",
 "tests compare gradients on one curve-fitting problem with wide tolerances",
 ["theseus/theseus_layer.py", NL + "nonlinear_optimizer.py"],
 [("forward modes", "theseus/theseus_layer.py"), ("version check", OPT + "optimizer.py")],
 level_note="LayerMC.tla: exhaustive graph of forward calls (all modes), delayed backward passes, updates, conversions and structural edits replayed on real layers with exact rational solutions and gradients; Layer.tla judges random linear and zero-residual problems with shared parameters (Cramer's rule) and pose chains on the cube-rotation grid", technique=T_REPLAY)

prop("P13", "Batch elements are optimised independently",
 "The result of optimising a batch is, for every element, the result of optimising that element alone with the same options, whatever the other elements are. The same holds for errors, jacobians and linear solves.",
 ["inputs", "histories"], "every batch composition over problems that converge, diverge or reject steps at different iterations",
 "tests compare whole batches only",
 [NL, OPT], [("per-element masks", NL + "nonlinear_optimizer.py")],
 level_note='Batch.tla/OptTrace.tla: every batch is the product of its elements; scripted optimizer runs and random objectives of shipped costs evaluated, linearized, solved and optimized as a batch and element by element; adaptive optimizers compared up to the common prefix of their trajectories', technique=T_REPLAY)

prop("P14", "Lie group operations obey the group algebra",
 "Compose, inverse, between, adjoint, hat/vee, transform to and from, exp, log, retract and local of SO2, SE2, SO3, SE3 and vectors are mutually consistent with the group laws, and the jacobians they return are the derivatives of the operations in the right-tangent convention. This holds for every element including half turns, for every batch combination, and identically in both packages that implement the groups.",
 ["inputs"], "all group elements and points of the exact grid (including all 24 cube rotations), all operation sequences",
 "tests sample random elements, which almost never are half turns or exact special cases, and check operations one by one",
 [GEO + "so2.py", GEO + "se2.py", GEO + "so3.py", GEO + "se3.py", "torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py"],
 [("closed forms", "so3_impl.py, se3_impl.py, so2.py, se2.py")],
 level_note='LieMC.tla: exhaustive cube-group histories (exact integer rotations and translations) replayed on SO2/SE2/SO3/SE3 geometry and torchlie; random products, exp/log/adjoint/act/quaternion calls, their jacobians and autograd judged by Lie.tla against exact integer-quaternion groups and recorded central differences (fixed point 1e-4; 1e-6 near zero rotation)', technique=T_REPLAY)

prop("P15", "Scoped modes restore the previous behaviour on every exit",
 "Every scoped mode (group checks, silenced warnings, tangent-space gradients, Euclidean view of group tensors, masked variables) applies within its scope only, nests, is local to its thread, and is undone when the scope ends, also when it ends by an exception. Global numerical parameters change only by explicit set or reset calls and rejected settings change nothing.",
 ["histories", "schedules", "fault_sequences"], "every nesting of scopes, with exceptions at any point and several threads",
 "tests enter one scope at a time and never leave it by an exception",
 [GEO + "lie_group_check.py", "torchlie/torchlie/lie_tensor.py", "torchlie/torchlie/functional/lie_group.py", "torchlie/torchlie/global_params.py", "theseus/global_params.py"],
 [("thread-local context", GEO + "lie_group_check.py")],
 level_note='Modes.tla: the modes a thread sees are a function of its open scopes; TLC explores all short histories of scopes in two threads (machine with saved values refines the stack), every walk and every ordered pair of scopes is replayed with real with statements in real threads, and random histories (up to 40 events, 3 threads, exceptions, masks, parameters, library calls) are judged by TLC', technique=T_REPLAY)

prop("P16", "Geometric measurement costs compute their defining residuals",
 "The local/difference, between and moving-frame-between costs return the tangent-space residual their definition prescribes for every pose type, and the jacobians they return are the derivative of that residual under the optimiser's own update of each variable.",
 ["inputs"], "all poses of the exact grid for every supported group and batch combination",
 "tests compare against numeric differentiation at random poses only",
 [EMB + "measurements", EMB + "misc/local_cost_fn.py"], [("error/jacobians", EMB + "measurements")],
 level_note='MeasMC.tla: histories of five poses moved by group steps (quaternion algebra with rational translations, gauge and zero-residual theorems) replayed on an objective with the three costs; random rows, batch mixtures, precision changes, copies and camera configurations judged by Meas.tla: exact errors (rational camera model), jacobians against recorded central differences (1e-4)', technique=T_REPLAY)

prop("P17", "Motion-model and collision costs compute their defining residuals",
 "The double-integrator and Gaussian-process motion costs, the hinge cost and the signed-distance collision costs return the residual and jacobians their definitions prescribe for every input, including at cell boundaries, outside the map and beyond the limits.",
 ["inputs"], "all grid values of poses, velocities, time steps, maps and limits",
 "tests check a few cells and random values",
 [EMB + "motionmodel", EMB + "collision"], [("error/jacobians", EMB)],
 level_note='TLC checks the exact model of the fields, hinges, priors and pushing on all small instances; traces recorded from the real cost functions are judged by it. Bilinear distance maps: any one-sided slope at cell borders; half-turn object motions and fully occupied maps excluded.', technique=T_REPLAY)

prop("P18", "Forward kinematics follows the joint chain",
 "For every robot description, the pose reported for a link is the product of joint origins and joint motions along its chain from the root, for any selection and order of links and any declaration order in the description; spatial and body jacobians, and gradients, are the derivatives of those poses.",
 ["inputs", "programs"], "all kinematic trees of revolute, prismatic and fixed joints with cube-rotation origins and rational angles",
 "tests use two robot files and random angles",
 ["torchkin/torchkin/robot.py", "torchkin/torchkin/forward_kinematics.py", "torchkin/torchkin/joint.py"],
 [("tree construction", "robot.py"), ("FK and jacobians", "forward_kinematics.py")],
 level_note='Kin.tla: kinematic trees with exact rational poses, screws, spatial/body jacobians and first and second derivatives; KinMC.tla proves by exact quarter-turn/unit-slide differences that the jacobian columns and second derivatives are the derivatives of the poses for every tree of up to 2 (3) joints and replays every posture through a URDF file; KinTrace.tla judges random trees (up to 8 joints, shuffled declarations, omitted origins/axes, duplicate and root link selections, float32/64, autograd/func/vmap derivatives), the joint classes and the theseus robot models.', technique=T_REPLAY)

prop("P19", "Autodiff cost functions equal their analytic counterparts",
 "A cost function built from an error function returns, in every autodiff mode, the value of that function at the variables' current tensors and its exact jacobians for every optimisation variable, for every batch combination and history of updates, and leaves the variables untouched.",
 ["inputs", "histories", "configurations"], "all polynomial error functions of the grid, modes, batch sizes and update histories",
 "tests use one function per mode with equal batch sizes",
 [CORE + "cost_function.py"], [("modes", CORE + "cost_function.py: AutoDiffCostFunction")],
 level_note='AutoDiffMC.tla: graph of updates, evaluations, failing error functions, copies and conversions of an autodiff cost over mixed batch sizes, replayed in dense, loop and vmap modes; random integer polynomials over vectors and group elements judged exactly by AutoDiff.tla (errors, jacobians under the group update, gradients of jacobians), shipped costs against their autodiff versions', technique=T_REPLAY)

prop("P20", "Retraction and variable state follow the ordering and mask",
 "Retracting a sequence of variables by a step vector moves each variable by its own slice of the step in the given ordering, skips the batch elements masked out unless forced, and changes nothing else; the same result is obtained from the variables one at a time. Temporarily masked variables are restored afterwards.",
 ["inputs", "histories"], "every ordering, mask, group type mix and vectorization setting",
 "tests retract full sequences with one mask",
 [CORE + "objective.py", CORE + "vectorizer.py", CORE + "variable.py", GEO + "manifold.py"],
 [("retract", CORE + "objective.py: retract_vars_sequence"), ("vectorized retract", CORE + "vectorizer.py")],
 level_note="Store.tla graph replayed with and without vectorization (exact); random histories over all group types judged by Vec.tla against each variable's own retraction (1e-6 fixed point)", technique=T_REPLAY)

prop("P21", "Group tensors keep their type and value semantics",
 "Operations on typed group tensors return tensors of the documented kind with the values of the underlying group functions, refuse mixtures of group types and unsupported raw tensor operations, and in-place updates move along the group by the projected gradient; running under the Euclidean view gives plain tensor results.",
 ["histories", "inputs"], "every sequence of group tensor operations over both groups",
 "tests call each operator once with random values",
 ["torchlie/torchlie/lie_tensor.py"], [("torch function override", "torchlie/torchlie/lie_tensor.py")],
 level_note="TypedMC.tla: object store of plain and group tensors (constructors, views, conversions, operators, in-place moves, refusals, Euclidean view), all histories to depth 2 (3) replayed; random longer histories validated by TypedTrace.tla (exact cube-group values, kind, precision, leaf/gradient flags, identity, storage sharing); every operator's values, jacobians and gradients judged by Lie.tla", technique=T_REPLAY)

prop("P22", "Gaussians and samples transform with the manifold",
 "A Gaussian over manifold variables holds its mean and precision consistently: an update changes both, or is refused (wrong number of means; precision of a wrong shape, type or not symmetric) and changes nothing, copies are independent, and its mean is the variables it was given. Expressing it in the tangent space at a variable and retracting it back are inverse operations that transform mean, information vector and precision by the derivative of the exponential map, at any precision and batch size. Samples drawn around a solution follow the Gaussian with that mean and the scaled inverse of the approximate Hessian, separately for each batch element.",
 ["histories", "inputs"], "all histories of updates (good and refused), copies, moves and changes of coordinates over vectors and poses; all linear problems of the grid for sampling",
 "tests check single calls at random values in one precision and never a refused update's effect, a round trip or the law of the samples",
 ["theseus/optimizer/manifold_gaussian.py", "theseus/theseus_layer.py"],
 [("Gaussians", "theseus/optimizer/manifold_gaussian.py"), ("samples", "theseus/theseus_layer.py: compute_samples")],
 level_note="GaussMC.tla: all short histories of updates, refusals, copies, moves, local and retract over each kind of element (inverse theorem checked), replayed; random histories over mixed means, batch sizes and precisions judged exactly by GaussTrace.tla (rotation-free tangents, where the derivative of the exponential is rational); with rotation, round trips and the derivative against central differences; sample moments of 20000 draws against the exact precision within 6 standard deviations", technique=T_REPLAY)
