SM = M + "system_model.py"
prop("C01", "A model's variables are exactly what was declared, in declaration order",
     "After any sequence of creating, including, removing and looking up states, algebraic variables, controls, parameters and per-element parameters, a model's variable vectors, counts and name look-ups are exactly those of the declarations still in force, in declaration order, with every equation and initial-condition symbol still paired with its own variable. Removing a variable takes away that variable (and its pairing) and no other, and a rejected operation leaves the model unchanged.",
     ["histories", "inputs"], "all sequences of model-building operations, all variable kinds, sizes, names and orders",
     "Tests create a handful of variables and remove at most one; they do not interleave removals with declarations, equal names, vectors or matrices.",
     [SM, M + "mixins/continuous_states_mixin.py", M + "mixins/algebraic_mixin.py", M + "mixins/control_mixin.py", M + "mixins/parameter_mixin.py", "yaocptool/util/util.py"],
     [("create_*/include_*/remove_*", M + "mixins/*.py"), ("remove_variables_from_vector, find_variables_indices_in_vector", "yaocptool/util/util.py"), ("get_variable_by_name(s)", SM)],
     ["SystemModel.x/y/u/p/theta, x_0, n_*, ode/alg, get_variable_by_name"])
prop("C02", "Declared equations are the model's equations, whatever the declaration form",
     "Differential and algebraic equations declared in any accepted form (lists, vectors, by state, derivative equalities, mixed, in any order, redeclared or structurally zero) are the ones the model evaluates, each on its own state, and none is lost, duplicated or attributed to another state. Equations for things that are not states, or in the wrong number, are rejected.",
     ["histories", "inputs"], "all declaration forms and orders of equations, interleaved with variable changes",
     "Tests use one or two declaration forms with small scalar models.",
     [SM, M + "mixins/continuous_states_mixin.py", M + "mixins/algebraic_mixin.py"],
     [("include_equations", M + "mixins/continuous_states_mixin.py, algebraic_mixin.py"), ("der", SM)],
     ["SystemModel.ode, SystemModel.alg evaluated at points"])
prop("C03", "Composing, connecting and substituting preserve the system's equations",
     "Replacing a variable, parametrizing a control, connecting an input to an output, including or merging models, building a network's model and joining DAE systems give a system whose equations, evaluated anywhere, are those of the parts after the substitution, with the variables of every part kept in order and unconnected parts untouched. The parts that were composed are not changed.",
     ["histories", "inputs"], "all models, substitutions, parametrizations, connections and compositions, in any sequence",
     "Tests compose one or two fixed models and mostly look at dimensions.",
     [SM, M + "mixins/control_mixin.py", M + "network/network.py", M + "dae_system.py"],
     [("replace_variable, parametrize_control, connect, include_models, merge", SM + ", " + M + "mixins/control_mixin.py"), ("Network.get_model", M + "network/network.py"), ("DAESystem.join/depends_on/substitute_variable", M + "dae_system.py")],
     ["SystemModel.ode/alg/u_par evaluated at points, SystemModel.simulate"])
prop("C04", "Copies are equal to and independent of their original",
     "A copy of a model, and the working model of an optimal control problem, describe the same system as the original at the time of copying, and later changes to either are never visible in the other. Copying keeps control parametrizations, algebraic equations, initial-condition symbols and name prefixes.",
     ["histories"], "all models, and all interleavings of changes to the copy and to the original",
     "Tests copy one model and compare a few attributes; independence over histories is not exercised.",
     [SM, "yaocptool/modelling/ocp.py"],
     [("get_copy, get_deepcopy, get_hardcopy", SM), ("OptimalControlProblem copies its model", M + "ocp.py")],
     ["both models' vectors and equations after every change"])
prop("C05", "A simulation is the solution of the model's equations",
     "Every sample a simulation returns lies on the trajectory of the declared differential-algebraic equations from the given initial condition, with the given controls, parameters and per-element parameters applied over the right intervals and algebraic variables consistent with them, whatever the integrator, time grid, control representation and initial time. The samples come back at the requested times and the given arguments are not changed.",
     ["inputs", "configurations"], "all models, time grids, integrators and inputs",
     "Tests simulate a few fixed models on one grid and check dimensions or single values.",
     [SM, M + "simulation_result.py", M + "dae_system.py"],
     [("SystemModel.simulate and the integrator set-up", SM), ("DAESystem.simulate, convert_from_tau_to_time/time_to_tau", M + "dae_system.py")],
     ["SimulationResult data, SystemModel.simulate"])
prop("C06", "Computed algebraic values, equilibria and linearizations satisfy the model",
     "The algebraic values found for a given point solve the algebraic equations there, an equilibrium makes every derivative and algebraic residual zero while respecting the requested fixed or additional equations, and a linearization has the model's partial derivatives at the point as its matrices. None of them changes the model.",
     ["inputs"], "all models with a solvable algebraic part or equilibrium, all points",
     "Tests check one example of each, some only for not raising.",
     [SM], [("find_algebraic_variable, find_equilibrium, linearize", SM)], ["returned values substituted in the equations"])
prop("C07", "Time scaling and polynomial and per-element building blocks are exact",
     "Converting between physical time and element time is exact on every element; piecewise-polynomial approximations interpolate their coefficients at the collocation points with derivatives that match; per-element tables select the value of the element that contains the time; and the matrix exponential equals the true one.",
     ["inputs"], "all expressions, element boundaries, degrees, tables and matrices",
     "Tests sample one degree, one element size and one matrix.",
     [M + "dae_system.py", "yaocptool/util/util.py", "yaocptool/methods/classic/collocationscheme.py"],
     [("convert_from_tau_to_time, convert_from_time_to_tau", SM), ("create_polynomial_approximation, expm, create_constant_theta, join_thetas, ...", "yaocptool/util/util.py")],
     ["values of the returned functions and dictionaries"])
prop("C08", "Vector look-ups and relation inspection act on identity and position",
     "Looking up, testing and removing symbols in vectors acts on exactly the given symbols (not on equal names) at the right positions, in any order and with repeated or absent symbols handled as documented, and relations are classified (equality, inequality, strict or not) correctly for every operand.",
     ["inputs"], "all vectors of symbols and selections, all relational expressions",
     "Tests use one vector and one relation of each kind.",
     ["yaocptool/util/util.py", "yaocptool/util/__init__.py"],
     [("find_variables_indices_in_vector, remove_variables_from_vector(_by_indices), is_equality, is_inequality", "yaocptool/util/util.py")],
     ["returned indices, vectors and classifications"])
prop("C09", "An optimization problem's feasible set and cost are the declared ones",
     "After any sequence of declaring variables, parameters, bounds, objectives, equalities and inequalities in any accepted form, the problem handed to the solver has exactly the declared variables, bounds and objective, and a point violates it if and only if it violates a declared constraint, by the same amount. Invalid declarations are rejected.",
     ["histories", "inputs"], "all sequences and forms of declarations, all points",
     "Tests declare one constraint at a time; sides, signs and sizes are not crossed.",
     ["yaocptool/optimization/abstract_optimization_problem.py", "yaocptool/optimization/nonlinear_problem.py", "yaocptool/optimization/quadratic_problem.py"],
     [("include_variable/parameter/equality/inequality/constraint, set_objective, get_problem_dict, get_default_call_dict", "yaocptool/optimization/abstract_optimization_problem.py")],
     ["get_problem_dict and get_default_call_dict evaluated at points"])
prop("C10", "A reported solution is feasible and optimal for the problem as it is now",
     "The result of solving a nonlinear or quadratic problem satisfies its bounds and constraints and the optimality conditions of the problem as declared at the time of the call, with the parameters, guess and call-time bounds of that call, also after the problem was solved before and changed, and whatever other problems are solved in between. Solving with parameters of the wrong size is rejected, and arguments and global options are not changed.",
     ["histories", "inputs", "configurations"], "all convex problems, parameters, guesses, and solve/change/solve histories",
     "Tests solve one problem once.",
     ["yaocptool/optimization/abstract_optimization_problem.py", "yaocptool/optimization/nonlinear_problem.py", "yaocptool/optimization/quadratic_problem.py", "yaocptool/config.py"],
     [("solve, get_solver, cached solver", "yaocptool/optimization/abstract_optimization_problem.py")],
     ["solution dictionary: x, f, lam_x, lam_g, stats"])
OC = M + "ocp.py"
prop("C11", "An optimal control problem is exactly what was declared on it",
     "After any sequence of adding, removing, replacing, connecting and promoting variables, setting bounds and guesses, and declaring costs and constraints, every bound, guess, initial condition, decision parameter, cost term and constraint of the problem belongs to the variable or expression it was declared for, and everything else is unchanged. Inconsistent problems and wrong-sized declarations are rejected before solving.",
     ["histories", "inputs"], "all sequences of problem-building operations",
     "Tests declare one bound or constraint on a small problem; alignment over histories of removals and insertions is not exercised.",
     [OC, M + "mixins/*.py"],
     [("include_*/create_*/remove_*, replace_variable, connect, set_parameter_as_optimization_parameter", OC), ("pre_solve_check, create_quadratic_cost", OC)],
     ["problem vectors (x_min, x_max, ..., x_0, h_initial, h_final, g_ineq, g_eq, L, V, S, p_opt, theta_opt) and expressions evaluated at points"])
prop("C12", "Merging problems and building networks preserve every part",
     "A merged problem or the problem of a network of nodes has exactly the variables, bounds, guesses, costs, constraints and decision parameters of its parts, plus exactly the declared connections, whether direct or through intermediary nodes; parts are not altered in meaning. A network reports exactly the nodes and connections that were inserted and not removed.",
     ["histories", "inputs", "configurations"], "all sets of problems, network topologies and insertion/removal orders",
     "Tests build one small network and look at dimensions.",
     [OC, M + "network/network.py", M + "network/node.py"],
     [("OptimalControlProblem.merge/connect", OC), ("Network.add_node/connect/get_problem/insert_intermediary_nodes, ...", M + "network/network.py")],
     ["composed problem's vectors and expressions, network's nodes and connections"])
prop("C13", "A reported optimal trajectory is feasible and its cost is the true cost",
     "Whenever a direct method reports success, the returned states and algebraic variables follow the model's equations under the returned control, parameters and initial condition at the reported times; every declared bound, path, final-time and parameter constraint and control-move limit holds at its specified points; and the reported cost is the declared cost of that trajectory. This holds for both discretizations, any degree, number of elements, horizon start and guess strategy, and a well-posed feasible problem is solved.",
     ["inputs", "configurations"], "all problems, discretizations, degrees, grids and data",
     "Tests solve a few fixed problems and compare one objective value.",
     [T + "classic/collocationscheme.py", T + "classic/multipleshooting.py", T + "classic/directmethod.py", T + "base/solutionmethodsbase.py"],
     [("discretize, get_system_at_given_times, set_data_to_optimization_result_from_raw_data", T + "classic/*.py"), ("solve, call_solver", T + "base/solutionmethodsbase.py")],
     ["OptimizationResult: x_data, y_data, u_data, p, theta, objective_opt_problem, x_c_final"])
prop("C14", "A reported solution satisfies the optimality conditions",
     "The control and decision parameters returned by a direct method satisfy the first-order optimality conditions of the declared problem: no admissible direction lowers the cost to first order. The trajectory returned by the indirect method satisfies Pontryagin's conditions (state and adjoint equations, minimising control within its bounds, transversality), and both methods agree on the same problem.",
     ["inputs", "configurations"], "all problems with first-order optimality conditions, discretizations and data",
     "Tests compare the objective of a few fixed problems with a stored number.",
     [T + "classic/directmethod.py", T + "classic/indirectmethod.py", T + "classic/collocationscheme.py", T + "classic/multipleshooting.py", OC],
     [("create_adjoint_states, create_cost_state", OC), ("calculate_optimal_control", T + "classic/indirectmethod.py"), ("objective and constraints in discretize", T + "classic/*.py")],
     ["OptimizationResult decisions, differenced through an independent simulation"])
prop("C15", "Decision vectors, guesses and result views are aligned with the variables",
     "Every position of the vector handed to the solver carries the bounds and initial guess of the variable, element and point it stands for; guesses are the documented ones (problem data or a simulation); packing and unpacking are inverse; and every way of reading a result (raw data, by index, by name, as a data set, first control, parameters) shows the same values with the right names and times.",
     ["inputs", "configurations"], "all problem dimensions, discretizations, degrees and guess options",
     "Tests look at sizes and at single values of one problem.",
     [T + "classic/collocationscheme.py", T + "classic/multipleshooting.py", T + "base/optimizationresult.py", T + "base/discretizationschemebase.py"],
     [("unpack_decision_variables, repack_decision_variables, create_initial_guess(_with_simulation)", T + "classic/*.py"), ("get_variable(_by_name), to_dataset, first_control", T + "base/optimizationresult.py")],
     ["solver call bounds and guess, OptimizationResult views"])
prop("C16", "Each solve answers its own data, however the method was used before",
     "Solving again with other initial conditions, parameters, per-element parameters, last controls, guesses or warm starts gives a solution of the problem with exactly the data of that call, as a fresh method would; earlier results, the arguments and other methods are not affected. Calls that lack required data or give the wrong size are rejected and leave the method usable.",
     ["histories", "inputs"], "all sequences of solve calls on one or several methods",
     "Tests solve each method once or twice.",
     [T + "base/solutionmethodsbase.py", T + "classic/*.py"],
     [("solve, call_solver, _get_solver_call_args, create_optimization_result", T + "base/solutionmethodsbase.py")],
     ["OptimizationResult of every call, arguments and earlier results after the call"])
prop("C17", "Data sets keep exactly the samples inserted",
     "After any sequence of creating entries, inserting, sorting, copying, extending, saving and loading, a data set or simulation result holds exactly the inserted samples, each value with its time and name, in chronological order where sorting applies; copies and sources are independent; tables and plots show those samples; and mismatched data is rejected.",
     ["histories", "inputs"], "all sequences of data-set operations",
     "Tests insert one block and plot; alignment of times and values over histories is not checked.",
     [M + "dataset.py", M + "simulation_result.py"],
     [("insert_data, sort, extend, get_copy, save, as_dataframe, plot", M + "dataset.py"), ("SimulationResult.extend and views", M + "simulation_result.py")],
     ["DataSet.get_entry, as_dataframe, drawn curves"])
prop("C18", "Transport between processes, time limits and timers do what they say",
     "Symbols and expressions sent between processes arrive equal in type, shape, names and values, with symbols shared inside a message still shared, whatever other messages are in flight. A time-limited block is interrupted at its limit (raising or not as asked), other outcomes pass through untouched, the flag tells which happened, and no alarm or handler is left behind; a timer reports the time its block took.",
     ["inputs", "schedules"], "all expressions and message orders, all bodies of time-limited blocks",
     "No test sends expressions between processes or lets a limit expire.",
     ["yaocptool/util/serializer.py", "yaocptool/util/timeout.py", "yaocptool/util/util.py"],
     [("NewForkingPickler, CasadiPicklerDepickler", "yaocptool/util/serializer.py"), ("timeout", "yaocptool/util/timeout.py"), ("Timer", "yaocptool/util/util.py")],
     ["objects received, exceptions seen by the caller, timedout, signal handler"])
prop("C19", "Relaxing equations by the augmented Lagrangian solves the original problem",
     "Relaxing any selection of algebraic equations, path equalities and state bounds turns exactly those into cost terms multiplier*residual + penalty/2*residual^2 (relaxed algebraic variables become controls with their own bounds and guesses), and leaves everything else of the problem as declared. Each outer iteration hands the inner solver the current penalties and multipliers, then adds penalty*residual along the returned trajectory to each multiplier and changes the penalties by the selected rule; it stops at the tolerance or the iteration limit, and what it reports (violations, multipliers, their times) belongs to the returned trajectory. When the tolerance is met the answer is that of the problem that was not relaxed. The caller's options, data and other methods made from the same options are not affected.",
     ["inputs", "configurations", "histories"], "all problems, selections of equations, penalty rules, sizes and sequences of solves",
     "The method has no test; a multiplier attached to the wrong equation or element still produces a plausible trajectory.",
     [T + "augmented_lagrangian.py"],
     [("relaxation into the cost", T + "augmented_lagrangian.py"), ("multiplier and penalty updates, outer loop", T + "augmented_lagrangian.py")],
     ["the relaxed OptimalControlProblem, the calls to the inner solver, OptimizationResult.other_data and statistics"])
prop("C20", "Distributed solution of a network agrees with the centralized problem",
     "In the distributed augmented Lagrangian and Jacobi ADMM methods every node minimises its own cost plus multipliers and penalties on its couplings, evaluated against the latest successful answers of its neighbours (or the declared guesses), for scalar and vector connections, cycles and intermediary nodes. Blocks hold every node once and by default no two connected nodes; each pass solves the blocks one after the other, each one seeing the answers of those before it, in process or through remote nodes whatever the order messages are handled in, and passes are made until the network's cost no longer decreases by the tolerance or their limit is reached; multipliers and penalties follow their rules; a failed node solve is ignored; the reported violations are those of the returned trajectories and decide when to stop. When the couplings are met the network's trajectories and cost are those of the centralized problem, and remote nodes are terminated.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all networks, block choices, update rules, message orders and node failures",
     "No test runs a distributed method; what one node is told about another is only visible in the values exchanged.",
     [T + "network/distributedaugmetedlagrangian.py", T + "network/bipartite_jacobi_admm.py", T + "network/intermediary_node_solution_method.py", T + "base/distributed_optimization_result.py", T + "augmented_lagrangian.py"],
     [("exogenous variables and thetas of the nodes", T + "network/distributedaugmetedlagrangian.py"), ("blocks and passes", T + "network/distributedaugmetedlagrangian.py"),
      ("closed form of intermediary nodes", T + "network/intermediary_node_solution_method.py"), ("averaged couplings", T + "network/bipartite_jacobi_admm.py")],
     ["node solves and multiplier updates (wrapped), DistibutedOptimizationResult"])

prop("C21", "Closed loop: plant simulation and model predictive control",
     "Each control sent to PlantSimulation (a value in any accepted form, or a function of time, sampled at every sampling point) advances it by exactly one sampling time: the new state is the model integrated from the last one under that control, the plant's parameters and time; a control of the wrong size is refused and changes nothing, and a plain control replaces a function. The measurement is C*[x; y] + D*u at the current time, from the first one on, with noise of the given covariances only when asked, repeatable by its seed; everything is recorded at its time. In each MPC iteration the plant is measured once, that measurement goes through the estimator, the problem is solved from the estimate and from the last solution moved on by one element as its guess (zero cost state, rearrangement, hooks, p with the estimated mean and covariance at the given indices, theta) and the first control of that solution, or its polynomial, is sent once. run(n) makes n iterations and run(0) never ends; fixed-control runs send that control; what the user passed is not changed.",
     ["inputs", "histories", "configurations"], "all models, controls, sampling, measurement equations, noise, hooks and sequences of runs",
     "No test runs the plant or the controller; a wrong time, state or parameter shows only in the trajectory of the closed loop.",
     ["yaocptool/mpc/mpc.py", "yaocptool/mpc/plant.py", "yaocptool/estimation/ideal_estimator.py"],
     [("interval simulated", "yaocptool/mpc/plant.py"), ("iteration of the controller", "yaocptool/mpc/mpc.py")],
     ["PlantSimulation, its data set, and every call between controller, plant, estimator and solution method"])

prop("C22", "State estimators follow the Kalman recursions",
     "After every sample the mean and covariance returned and kept by ExtendedKalmanFilter, UnscentedKalmanFilter and PCEKalmanFilter are those of the recursion for the given model, sampling time, estimator time, control, parameters, measurement equation (matrices or function) and noise covariances: the prediction is the model integrated over one sampling time from the last estimate; the extended filter uses the Jacobians at the prediction and the applied control, on states and algebraic variables, with process noise in the prediction; the other two propagate the moments of the distribution through the system (gain from the propagated moments plus measurement noise, process noise added to the state covariance), exactly when the system is linear in the state and, for the polynomial chaos filter, also for measurement functions within its polynomial order and any sufficient number of samples (the unscented filter uses its 2n+1 symmetric sigma points also on nonlinear systems). The covariance is symmetric and non-negative, estimates are recorded at the time of their measurement, inputs are not changed, and a filter lacking a measurement equation, an initial mean or covariance is refused.",
     ["inputs", "histories", "configurations"], "all models (linear in the state or, for the extended and unscented filters, nonlinear; with control-, parameter- and time-dependent terms, with and without algebraic variables), measurement equations and sample sequences",
     "No test runs an estimator; the recursions have to agree with linear algebra for every model and every sequence of samples.",
     ["yaocptool/estimation/extended_kalman_filter.py", "yaocptool/estimation/unscented_kalman_filter.py", "yaocptool/estimation/pce_kalman_filter.py", "yaocptool/stochastic/pce.py", "yaocptool/stochastic/util.py"],
     [("recursion of the extended filter", "yaocptool/estimation/extended_kalman_filter.py"), ("sigma points and weights", "yaocptool/estimation/unscented_kalman_filter.py"), ("polynomial coefficients", "yaocptool/stochastic/pce.py")],
     ["estimate(), x_mean, p_k, dataset"])
prop("C23", "Stochastic problems become the right deterministic problem",
     "A stochastic problem (uncertain parameters and initial conditions with given means, covariances and distribution, chance constraints, mean cost) is converted by PCEConverter to a deterministic problem that is equivalent to it under the polynomial chaos approximation: samples are the given mean plus the Cholesky factor times the Sobol draws (exponentiated for the log-normal distribution), one scenario per sample with the same control, certain parameters and times; the expansion reproduces polynomials up to its order exactly, with their exact mean and variance; in the solution every scenario obeys the model from its own initial condition, reported mean, variance and coefficients of costs and expressions are those of the scenarios, the objective is their mean, chance constraints hold with the distribution-free margin at the end of every element, the other constraints and bounds hold in every scenario and no nearby admissible control is better. The stochastic problem is not changed by the conversion, and uncertainty data of the wrong size or kind is refused.",
     ["inputs", "programs", "configurations"], "all stochastic problems with models linear in the state, uncertain parameters and initial conditions, orders, sample counts and chance constraints",
     "The tests convert one problem; the equivalence has to hold for every combination of uncertainties, orders and constraints.",
     ["yaocptool/stochastic/pce.py", "yaocptool/stochastic/util.py", "yaocptool/stochastic/__init__.py", "yaocptool/modelling/stochastic_ocp.py"],
     [("conversion to scenarios", "yaocptool/stochastic/pce.py"), ("sampling", "yaocptool/stochastic/util.py"), ("uncertainty data", "yaocptool/modelling/stochastic_ocp.py")],
     ["PCEConverter.convert_socp_to_ocp_with_pce", "get_ls_factor", "sample_parameter_*_with_sobol", "OptimizationResult of the converted problem"])
