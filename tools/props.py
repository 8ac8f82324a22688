prop("P01", "Building linear expressions follows the algebra of linear functions",
 "For every way of combining variables, numbers and expressions with +, -, *, /, unary signs, compound assignment, sums and dot products over arrays, and for every substitution of a variable, the resulting expression evaluates at every assignment of values to exactly what the written arithmetic formula evaluates to. This includes fixed variables' contributions, constant terms, fractional coefficients and cancelling terms, and copying or assigning an expression never changes its value.",
 ["programs", "inputs"], "all operator combinations in the bounds, all coefficients, constants and variable values in the bounds",
 "Tests build a few expressions with fixed coefficients at one or two points; the algebra must hold for every coefficient, sign and value.",
 ["printemps/model_component/expression.h", "printemps/model_component/expression_binary_operator.h", "printemps/model_component/expression_proxy.h", "printemps/model_component/variable.h", "printemps/model_component/variable_proxy.h", "printemps/multi_array/value_proxy.h"],
 "operator overloads maintain a coefficient map and a constant; evaluation sums coefficient * value")
prop("P02", "Constraints report exactly how far a point violates them",
 "A constraint written with <=, == or >= between any two sides reports, for every assignment, a violation equal to the amount by which the written relation fails (zero exactly when it holds), and its signed margins and bounds implied by variable bounds agree with the relation as written. Evaluating a hypothetical change of variable values gives the same answer as performing the change and evaluating again.",
 ["programs", "inputs"], "all relations, operand kinds, coefficients, constants, values and moves within the bounds",
 "Tests check single hand-picked constraints at single points; correctness is needed at every point and for each operand combination and sense.",
 ["printemps/model_component/constraint.h", "printemps/model_component/constraint_binary_operator.h", "printemps/model_component/constraint_proxy.h", "printemps/model_component/expression.h"],
 "constraints hold lhs-minus-rhs expressions and a sense; violation is max(0, ...) or |...| of the evaluated expression")
prop("P03", "The score of a solution is its true objective, violation and penalty",
 "For every model and every point, the reported objective equals the objective as the user wrote it (negated internally only for maximisation), total violation equals the sum of the violations of all enabled constraints, the solution is called feasible exactly when every constraint holds, and penalised objectives are the objective plus the weighted violations. Disabled constraints contribute nothing, and the exported solution data repeats the same values.",
 ["inputs", "programs"], "all points of models with a few variables and constraints of every sense, minimise and maximise",
 "Tests evaluate single points of single models; a wrong sign or omitted term shows only at other points or senses.",
 ["printemps/model/model.h", "printemps/model_component/objective.h", "printemps/solution/solution_score.h"],
 "model evaluation accumulates constraint violations times penalty coefficients and the sign-normalised objective")
prop("P04", "Incremental move evaluation equals full re-evaluation",
 "For every current point and every move of one, several or one-hot variables, the score predicted before applying the move equals the score obtained by applying it and re-evaluating the whole model from scratch. After any sequence of applied moves the stored values of variables, expressions, constraints, violations and the list of violated constraints equal those recomputed from the variable values.",
 ["inputs", "histories", "programs"], "all current points, moves and two-step histories within the bounds",
 "Tests apply a few moves to fixed small models; drift in the incremental path needs specific signs, senses and orders.",
 ["printemps/model/model.h", "printemps/model_component/constraint.h", "printemps/model_component/expression.h", "printemps/solution/solution_score.h"],
 "fast paths for single-variable, selection and multi-variable moves use cached sensitivities and violation values")
prop("P06", "Presolve neither loses the best solutions nor accepts wrong ones",
 "For every model, every point accepted by the model after presolve (tightened bounds, fixed variables, remaining constraints) is a solution of the model as the user wrote it, including the user's own fixed values, and for every solution of the original model a solution at least as good survives. A model that has a solution is never rejected.",
 ["inputs", "programs", "configurations"], "all bounds, right-hand sides and points within the bounds, for rows of every sense, single-variable rows, unconstrained variables and set partitioning/packing/covering rows",
 "Tests run presolve on single models and look at the messages or flags; whether the reduced model is equivalent depends on every coefficient, sign, rounding and bound.",
 ["printemps/preprocess/problem_size_reducer.h", "printemps/model/model.h", "printemps/model_component/variable.h"],
 "bound propagation, singleton removal, duplicate and dominated set rows/columns, fixing of unconstrained variables")
prop("P07", "Eliminating defined variables keeps the solution set and their values",
 "When equations are used to eliminate variables, a point is accepted by the reduced model exactly if it is a solution of the original model with every eliminated variable equal to what its equation defines, within its original bounds. The values and the objective reported afterwards, for any values of the remaining variables, are those of the original model.",
 ["inputs", "programs"], "all points, bounds and constants within the bounds, for one or two defining equations of 13 shapes",
 "Tests check the extracted expressions of single models; equivalence must hold for every bound, constant and point.",
 ["printemps/preprocess/dependent_variable_extractor.h", "printemps/model_component/expression.h", "printemps/model/model.h"],
 "key variables of equality constraints are solved for and substituted; bounds become additional constraints")

prop("P05", "Improvability marks never hide an improving variable",
 "A variable is marked as able to improve the objective exactly when some change of it within its bounds improves the objective, and as able to improve feasibility exactly when some change within its bounds reduces a violated constraint. The marks stay right after any update, any move, with fixed and eliminated variables, for minimisation and maximisation.",
 ["inputs", "histories"], "all points, bounds, right-hand sides and one- and two-variable moves within the bounds",
 "Moves that no marked variable supports are skipped by the search, so one missing mark silently removes improving moves; tests check a few points of small models.",
 ["printemps/model/model.h", "printemps/model_component/variable.h", "printemps/model_component/constraint.h"],
 "marks are updated from objective sensitivities, bound margins and the list of violated constraints")
prop("P08", "Generated neighbourhood moves are legal and keep the constraint they serve",
 "For every model and every current point, every move the generators offer changes only variables that are not fixed, to values within their bounds, and moves made for a special constraint (exclusive or/nor, balanced, inverted, constant sum/difference/ratio, aggregation, precedence, variable bound, soft selection) leave that constraint satisfied when it was (or satisfy it). Moves which cannot improve anything are left out only when the improvability rules say so.",
 ["inputs", "programs", "configurations"], "all points, bounds, constants, fixed variables, improvability marks and acceptance settings within the bounds, for every special constraint type",
 "Tests generate moves for one instance of each constraint type; signs, orders, constants and bounds of the row decide whether the move is right.",
 ["printemps/neighborhood/abstract_move_generator.h", "printemps/neighborhood/neighborhood.h", "printemps/neighborhood/binary_move_generator.h", "printemps/neighborhood/integer_move_generator.h", "printemps/model_component/constraint.h"],
 "one generator per constraint type builds move templates, recomputes targets each iteration and filters by fixed, bounds and improvability flags")
prop("P14", "A solver run reports only true facts about the model the user wrote",
 "Whatever the model, starting values and search options, when the solver returns: fixed variables keep their value and every reported value lies within its variable's bounds (in a solution reported infeasible, a variable that was eliminated through an equation may be outside, which then counts as violation); the solution is called feasible exactly when it satisfies every constraint as written; the reported objective is the written objective at the reported point; status and solution agree; the dual bound excludes no feasible point; and a solution declared optimal is not beaten by any feasible point. A model with a solution is never rejected as infeasible.",
 ["inputs", "configurations", "histories"], "whole runs over all right-hand sides, initial values and adversary points within the bounds, minimise and maximise, preprocessing on",
 "End-to-end tests solve a handful of benchmark models; errors in the combination of preprocessing, elimination, search and export show only for particular data.",
 ["printemps/solver/solver.h", "printemps/solver/tabu_search/controller/tabu_search_controller.h", "printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solution/incumbent_holder.h", "printemps/model/model.h"],
 "the solver sets the model up, preprocesses, runs the search phases, keeps incumbents and exports the best one as the result")
prop("P10", "Tabu status follows the search memory exactly",
 "After every history of recorded moves, each variable carries the iteration of its latest update (within the configured random width) and the number of its updates, each constraint the number of times it was violated, and totals, reciprocals and primal/dual intensities follow from those numbers; a reset of the tabu list makes every variable free. A move is permissible exactly when its variables' latest updates satisfy the tabu rule for the given duration (in mode All: at least one variable free; in mode Any and for selection moves: all free), and its frequency and Lagrangian penalties are those of the recorded counts and multipliers.",
 ["inputs", "histories", "configurations"], "all iteration numbers, tenures, update histories, counts and modes within the bounds",
 "Tests look at single memory states; the rule must hold for each history, boundary of the tenure and mode.",
 ["printemps/solver/tabu_search/core/tabu_search_core_move_evaluator.h", "printemps/solver/memory.h", "printemps/solver/tabu_search/core/tabu_search_core_move_score.h"],
 "memory keeps per-variable last update iterations and counts; the evaluator compares them with the tenure")
prop("P11", "Incumbents are always the best points found so far",
 "Whatever sequence of points the search visits, the local and global augmented incumbents hold the first point with the smallest (locally or globally) penalised objective among those visited (for the local one: since its reset), and the feasible incumbent holds the best feasible point visited by the (minimised) objective. An update status reports an improvement exactly when one happened, stored scores belong to the stored points, and a found feasible solution is never lost or replaced by a worse one.",
 ["histories", "inputs"], "all sequences of scores and points within the bounds, with resets in between",
 "Tests feed a few sequences; the guarantee concerns every order of visited points, ties and resets.",
 ["printemps/solution/incumbent_holder.h", "printemps/solution/solution_score.h", "printemps/solution/dense_solution.h"],
 "the holder compares each visited score with stored best scores and copies the solution on improvement")
prop("P12", "Solution archives keep the best solutions pushed, in order",
 "For every sequence of solutions pushed one by one or in batches, a sorted archive holds, in ascending or descending order of the objective, the best ones of everything pushed up to its capacity, and an unsorted one the latest ones in order; a solution is dropped only if the capacity is exceeded, adjacent repetitions of a solution are stored once, and nothing is stored that was not pushed. Removing infeasible solutions removes exactly those, the feasibility flag agrees with the contents, and a set-up archive is empty.",
 ["histories", "inputs", "configurations"], "all sequences of pushes of solutions with any objective, violation and values within the bounds, both senses, all capacities",
 "Tests push a few solutions; ordering, eviction at capacity, ties and duplicates depend on the sequence.",
 ["printemps/solution/solution_archive.h", "printemps/solution/sparse_solution.h"],
 "push appends, filters duplicates, sorts and truncates to the capacity")
prop("P16", "MPS files are read as the model they describe",
 "For every MPS file within the format, the imported model accepts exactly the points that satisfy the file's rows (including RANGES), bounds of every record type and integrality, and has the file's objective with its constant. Section order variations, defaults for missing sections and separate naming of rows and columns do not change the meaning.",
 ["inputs", "programs"], "all numbers of right-hand sides, ranges, bounds and coefficients within the bounds for every record type, row sense and variable type",
 "Tests read a few files; each record type combined with each sign of the number and variable type has its own meaning.",
 ["printemps/mps/mps.h", "printemps/mps/mps_variable.h", "printemps/mps/mps_constraint.h", "printemps/model/model.h"],
 "a line-based section parser fills variable and constraint tables which import_mps turns into the model")
prop("P18", "Written model files describe the same model",
 "For every model, the MPS file written for it and read back has exactly the same solutions and the same objective at each point (negated for maximisation, as MPS minimises), and the JSON file written for it states names, sense, bounds, fixed values, coefficients and constants from which the same solutions and objective follow. Nothing is lost to rounding, to infinite bounds or to variables that occur nowhere.",
 ["inputs", "programs"], "all points, bounds kinds, senses, coefficients including wide and fractional ones within the bounds",
 "Tests write files and compare a few lines; equivalence must hold for every bound kind, sense, coefficient and point.",
 ["printemps/model/model.h", "printemps/utility/json/json.h", "printemps/mps/mps.h"],
 "write_mps and write_json print rows, columns, right-hand sides, bounds and the objective")
prop("P19", "JSON values survive writing and reading",
 "Every JSON object or array made of strings (of printable characters without quotation marks and backslashes), integers of 32 bits, floating point numbers, booleans, nulls and nested containers that is written to text and parsed again has the same keys, order, types and values; separators, brackets, blanks and colons inside strings and any blanks between tokens do not change the result.",
 ["inputs"], "all strings over printable characters up to the bounded length in every position, critical numbers, nested containers",
 "Tests parse a few fixed texts; the tokenizer has to be right for every character at every place.",
 ["printemps/utility/json/json.h"],
 "a hand-written tokenizer and recursive parser, and stream operators for writing")
prop("P09", "Selections keep exactly one variable at one",
 "When sum-to-one constraints over binary variables are turned into selections, the selections are disjoint, cover exactly the variables of their rows, and from the (corrected) initial values on, after every selection move, exactly one variable of each selection is 1, it is the one recorded as selected, and fixed variables keep their value. Every variable that could be selected is offered by a move, moves are predicted with the score they lead to, and a model with a solution is not rejected because of its initial values while correction is on.",
 ["inputs", "histories", "configurations"], "all initial values, fixed variables, right-hand sides and sequences of two moves within the bounds, for every selection mode",
 "The sum-to-one rows are no longer evaluated once replaced, so one wrong flag silently breaks the constraint; tests look at single start points.",
 ["printemps/preprocess/selection_extractor.h", "printemps/preprocess/verifier.h", "printemps/neighborhood/selection_move_generator.h", "printemps/model/model.h"],
 "an extractor disables the rows, the corrector repairs initial values, and the move generator exchanges the selected variable")
prop("P13", "Dual bounds never exclude a solution",
 "The bound computed from the variable bounds is the best objective value of any point within them; the Lagrangian for any valid multipliers does not exceed the objective of any solution (minimised); the linear program exported for the relaxation has exactly the rows, bounds, objective and constant of the model; and the dual bounds reported by the Lagrange dual and PDLP phases exclude no solution, for minimisation and maximisation.",
 ["inputs", "programs"], "all bounds, fixed values, multipliers, right-hand sides and points within the bounds",
 "A bound that is wrong for one sign pattern of coefficients or one sense still passes tests of other models, but makes the solver stop early or cut off solutions.",
 ["printemps/model/model.h", "printemps/solver/lagrange_dual/controller/lagrange_dual_controller.h", "printemps/solver/pdlp/controller/pdlp_controller.h", "printemps/solver/lagrange_dual/core/lagrange_dual_core.h", "printemps/linear_programming/linear_programming.h"],
 "naive bounds from coefficients and variable bounds, Lagrangian ascent, and a first-order LP solver on the exported instance",
 "Reported Lagrange and PDLP bounds are compared with tolerances of 1e-6 and 1e-3.")
prop("P15", "Starting points are corrected to the nearest allowed values and nothing else",
 "With correction on, every initial or imported value outside its variable's bounds is moved to the nearest allowed value, every other value is kept, and fixed values are never changed; with correction off, values outside the bounds are rejected and right ones are kept. Imported solutions (dense, sparse or by name) give every named variable its value.",
 ["inputs", "configurations"], "all initial, fixed and imported values and bounds within the bounds, correction and presolve on and off",
 "Tests start from a few points; each combination of variable kind, bound, fixing and option has its own code path.",
 ["printemps/preprocess/verifier.h", "printemps/model/model.h"],
 "correctors and verifiers per variable kind run at set-up; import_solution writes values into the variables")
prop("P20", "Options are read exactly as the option file states them",
 "Every option given in an option file is set to the given value (number, boolean, or mode by name or number), every option that is not given keeps its default, regardless of the order, spacing and presence of sections, and options written to JSON and read back are unchanged.",
 ["inputs", "configurations"], "each option with any value of its kind, alone and with others, within the bounds",
 "Tests read one file in which many values equal the defaults; a swapped key or a missed option shows only for the option and value concerned.",
 ["printemps/option/option.h", "printemps/option/general_option.h", "printemps/option/parallel_option.h", "printemps/option/tabu_search_option.h", "printemps/option/read_json.h"],
 "each section reads its keys from the parsed JSON object after initialising to defaults")
prop("P21", "Array access, sums and products over arrays address the intended elements",
 "For every shape, each multi-dimensional index of a variable, expression or constraint array names its own element and the flat index is consistent with it. sum and dot over any pattern of fixed and free dimensions, selections over such a pattern, and names of elements cover exactly the elements that match the pattern, each once and with its own coefficient; a wrong number of dimensions or coefficients is rejected.",
 ["inputs", "programs"], "all indices, patterns, element values and coefficients for every shape within the bounds",
 "Tests use a few shapes and patterns; an addressing slip shows only for particular dimension lengths and patterns and gives a model that is silently a different one.",
 ["printemps/multi_array/abstract_multi_array.h", "printemps/model_component/variable.h", "printemps/model_component/expression.h"],
 "index arithmetic over strides and loops over flat indices with pattern matching")
prop("P22", "The utility containers behave as the mathematical objects they stand for",
 "For every content and history, the fixed-size hash map returns exactly the stored values and no others, the fixed-size queue holds the latest pushed values and the right sums, averages, minima and maxima, union-find joins exactly what was united, spanning trees connect exactly the connected nodes at minimum weight, and set, map, range, search, trimming and two-way-map helpers return what their definition says.",
 ["inputs", "histories"], "all contents and operation histories within the bounds",
 "Tests check a few contents; collisions, wrap-around, ties and repeated set-up only show for particular keys and histories.",
 ["printemps/utility/fixed_size_hash_map.h", "printemps/utility/fixed_size_queue.h", "printemps/utility/union_find.h", "printemps/utility/graph/graph.h", "printemps/utility/bidirectional_map.h", "printemps/utility/vector_utility.h"],
 "header-only containers used by sensitivities, duals, chains and presolve")
prop("P24", "Sparse vectors and matrices compute what dense algebra computes",
 "For all sparsity patterns and values, sums, differences, products, norms and transposed products of sparse vectors, matrices and diagonals equal those of the dense ones, transposing and scaling keep the represented matrix, equilibration returns scalings that reproduce the original matrix, and an object that is set up again contains only the new entries; operands of wrong sizes are rejected.",
 ["inputs"], "all patterns and values within the bounds",
 "Tests multiply a few full examples; empty rows, missing entries and reuse take other code paths.",
 ["printemps/utility/sparse/sparse_matrix.h", "printemps/utility/sparse/vector.h", "printemps/utility/sparse/diagonal.h", "printemps/utility/sparse/binary_operator.h"],
 "compressed row storage with row and column pointers, transposes built from them")
prop("P26", "Exported and written solutions repeat the values of the model",
 "For every point of every model, the dense, sparse and named solutions exported from it, and the files written by name, by array and as .sol, contain every variable, expression and constraint element with its value, the objective with its sense, the violations and the feasibility, each under its own name and index; reading a solution back gives the same point.",
 ["inputs", "programs"], "all points of models with scalars and arrays of one to three dimensions within the bounds",
 "Tests export a few points; a swapped index, missed element or wrong sign shows only for certain shapes, senses and values.",
 ["printemps/model/model.h", "printemps/solution/named_solution.h", "printemps/solution/sparse_solution.h", "printemps/solution/dense_solution.h", "printemps/helper/helper.h"],
 "export functions copy values of proxies into solution objects and writers print them")
prop("P27", "The command-line solver obeys its files and flags and writes true results",
 "For every order of flags, the stand-alone solver applies initial values, fixed values, mutable variables, selection constraints, variable pairs and options exactly as its files state them, rejects missing files, continuous variables without --accept-continuous and contradictory flags, and the written incumbent, status, stored solutions and exported instance are true of the model in the MPS file: values within bounds, objective, violation and feasibility right, fixed values kept.",
 ["inputs", "configurations"], "all contents of the files and orders of flags within the bounds, whole solver runs",
 "Tests parse argument lists and read single files; what is written at the end depends on the whole chain of reading, solving and exporting.",
 ["printemps/standalone/mps_solver.h", "printemps/helper/auxiliary_file_reader.h", "printemps/model/model.h"],
 "an argument parser, readers of name-value files, the solver, and writers")
prop("P29", "Parity equations are solved right and presolve by them excludes no solution",
 "For every 0-1 matrix, the rank and inverse over GF(2) and the reachability matrix are right; and whatever system of parity constraints a model contains, solving it in presolve removes no solution of the model, keeps its objective values, and rejects a model only if it has no solution; variables fixed by it satisfy the original equations including the integer variables.",
 ["inputs", "programs"], "all matrices up to the bounded size, all signs, bounds, right-hand sides and points of the systems within the bounds",
 "Tests solve one or two regular systems; signs, singular systems, disabled rows and bounds of the integer variables take other ways.",
 ["printemps/preprocess/gf2_solver.h", "printemps/utility/binary_matrix.h"],
 "Gauss elimination over GF(2) on the extracted rows, then fixing of the binaries and integers",
 "Variables that occur in no enabled row may be fixed at their best value by the objective.")
prop("P36", "Iteration, time and target limits are obeyed",
 "A run never performs more outer loops, inner iterations, local search or Lagrange iterations than the options allow, does not go on after the time limit of the run or of a phase has passed, and does not go on once the feasible incumbent reaches the target value (for minimisation and maximisation). It ends earlier only because the target is reached or the reported solution is optimal, and the reported counts are those performed.",
 ["inputs", "configurations", "schedules"], "all limits, targets, start points, screening modes and clock advances within the bounds",
 "Tests run the solver with single limits; a limit that grows, is checked against the wrong clock or ends the run too soon shows only for particular combinations.",
 ["printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solver/tabu_search/controller/tabu_search_controller.h", "printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h", "printemps/solver/local_search/core/local_search_core.h", "printemps/solver/lagrange_dual/core/lagrange_dual_core.h", "printemps/solver/solver.h"],
 "each phase checks time, iteration and target conditions at the head of its loop with a time offset handed over by the controller",
 "Whole runs: the inputs are enumerated by the solver over the stated ranges, one path each.")
prop("P28", "Constraints are classified by their true structure",
 "For every row, exactly one type is assigned, and it is the most special one of the documented list (singleton, exclusive or/nor, inverted, balanced, constant sum/difference/ratio, aggregation, precedence, variable bound, set partitioning/packing/covering, cardinality, knapsacks, flows, soft selection, min-max, intermediate, parity, general) whose definition the row's coefficients, constant, sense and variable kinds satisfy; its key variable is one the definition singles out. The model's lists by type, sense and enabledness contain exactly the rows concerned, also after fixing variables or changing bounds.",
 ["inputs", "programs"], "all coefficients, constants, senses and kinds of variables of rows with up to 4 variables within the bounds",
 "Presolve, elimination and moves rely on the type; tests classify one instance of each type, while fractional coefficients, signs and fixed variables decide the border cases.",
 ["printemps/model_component/constraint.h", "printemps/model/model.h", "printemps/model_component/constraint_type_reference.h"],
 "setup_constraint_type tries the types in turn; categorize_constraints fills the lists")
prop("P40", "Threads neither race nor change the outcome",
 "Compiled with OpenMP, as the applications and examples are, no two threads of a parallel section access the same data while one of them writes it, whatever the data and the team; the moves generated, the scores they are given, vectors and matrices computed, models read from MPS data, and the whole course and result of a solver run are the same with any number of threads as with one. Where a number of threads is asked for, teams of that number do the work.",
 ["schedules", "inputs", "configurations"], "all assignments of the work to teams of 2 or 3 members, in both orders, for all data within the bounds; without conflicting accesses every interleaving of the members has the same outcome",
 "The test suite is built without OpenMP, and a race shows only under particular interleavings.",
 ["printemps/neighborhood/neighborhood.h", "printemps/neighborhood/binary_move_generator.h", "printemps/neighborhood/constant_sum_integers_move_generator.h", "printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solver/local_search/core/local_search_core.h", "printemps/solver/lagrange_dual/core/lagrange_dual_core.h", "printemps/utility/sparse/function.h", "printemps/utility/sparse/sparse_matrix.h", "printemps/model/model.h"],
 "every loop that runs in parallel writes only to elements indexed by its own iteration",
 "The harnesses are compiled with OpenMP against a runtime of our own (engine/rt_omp.cpp): team members run one after another, every access is recorded and conflicts between members are asserted to be absent. Whole runs are enumerated by forking, one path each.")
prop("P34", "Values, bounds and fixedness of a variable always agree",
 "After any sequence of assigning values, setting and resetting bounds, fixing and unfixing, a variable (directly, through a proxy or by name) shows exactly the value, bounds, fixedness, kind (binary or integer) and room towards its bounds that the operations ask for. A fixed variable refuses any other value, crossing bounds are refused and change nothing, new bounds pull the value into them, and operations meant for one variable refuse arrays. Fixing by name fixes exactly the variables named; naming the mutable variables fixes all the others at zero.",
 ["inputs", "histories"], "all operation sequences, values and bounds within the bounds",
 "Tests call each operation once on fresh variables; stale margins, kinds or bounds show only after particular sequences.",
 ["printemps/model_component/variable.h", "printemps/model_component/variable_proxy.h", "printemps/model/model.h"],
 "each operation of Variable keeps value, bounds, sense and margins together; proxies pass them on")
prop("P25", "Stretching an integer move keeps it legal and never worsens it",
 "When the step size of an integer move is adjusted, the resulting move alters the same variable in the same direction, stays within its bounds, and its augmented objective is no worse than that of the move given; it differs from the given move only if it is strictly better. The current point is not changed by the search for the step.",
 ["inputs", "programs"], "all current points and first targets on the given models",
 "The galloping and bisection visit different targets for every width, offset and direction; tests try two or three.",
 ["printemps/solver/integer_step_size_adjuster.h", "printemps/model/model.h"],
 "IntegerStepSizeAdjuster::adjust gallops and bisects between the original value and the bound")
prop("P31", "Penalty coefficients stay sound and keep weighing violations",
 "The global penalty coefficient never exceeds the one given in the options; it is reduced only when all constraints have integral data and the option allows it, and then it still outweighs any difference of the objective between two points within the bounds. During a run every local penalty coefficient is a finite number between 0 and the initial coefficient; unless constraints are grouped or all are reset to the global coefficient, only the coefficients of constraints violated by the local incumbent are raised, and only those of satisfied ones are lowered. The status reports such values for every constraint.",
 ["inputs", "histories"], "all objectives, points, start points and options within the bounds",
 "A coefficient which turns into NaN, exceeds its limit or stops weighing violations only degrades the search after some loops; tests check single updates.",
 ["printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h", "printemps/model/model.h", "printemps/model_component/constraint.h", "printemps/solver/solver.h"],
 "shrink_global_penalty_coefficient compares with the range of the objective; tighten_/relax_/reset_local_penalty_coefficient run after each loop",
 "The shrinking is symbolic; whole runs are enumerated by forking, one path each.")
prop("P90", "The search finds good solutions and the relaxation converges",
 "Given enough iterations, the tabu search finds feasible and near-optimal solutions where they exist, and the PDLP relaxation converges to the optimum of the linear relaxation.",
 ["inputs", "histories"], "all models",
 "Tests solve a few instances.",
 ["printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solver/pdlp/core/pdlp_core.h"],
 "heuristic search and first-order iterations",
 na="A statement about unboundedly many floating point iterations; no bounded symbolic encoding of the code decides it. The one-sided facts that can be decided (bounds never exclude a solution, claims of optimality are true) are P13 and P14.")
