I(general, iteration_max)
D(general, time_offset)
D(general, time_max)
D(general, target_objective_value)
I(general, seed)
B(general, is_enabled_fast_evaluation)
D(penalty, penalty_coefficient_relaxing_rate)
D(penalty, penalty_coefficient_tightening_rate)
D(penalty, penalty_coefficient_updating_balance)
D(penalty, initial_penalty_coefficient)
D(penalty, penalty_coefficient_relaxing_rate_min)
D(penalty, penalty_coefficient_relaxing_rate_max)
D(penalty, penalty_coefficient_relaxing_rate_increase_rate)
D(penalty, penalty_coefficient_relaxing_rate_decrease_rate)
I(penalty, inner_stagnation_threshold)
I(penalty, outer_stagnation_threshold)
B(penalty, is_enabled_inner_stagnation_breaker)
B(penalty, is_enabled_outer_stagnation_breaker)
B(penalty, is_enabled_group_penalty_coefficient)
B(penalty, is_enabled_shrink_penalty_coefficient)
B(parallel, is_enabled_move_update_parallelization)
B(parallel, is_enabled_move_evaluation_parallelization)
B(parallel, is_enabled_automatic_move_update_parallelization)
B(parallel, is_enabled_automatic_move_evaluation_parallelization)
D(parallel, decay_factor_move_update)
D(parallel, decay_factor_move_evaluation)
I(parallel, number_of_threads_move_update)
I(parallel, number_of_threads_move_evaluation)
B(preprocess, is_enabled_presolve)
B(preprocess, is_enabled_remove_duplicated_constraints)
B(preprocess, is_enabled_remove_redundant_set_variables)
B(preprocess, is_enabled_remove_redundant_set_constraints)
B(preprocess, is_enabled_extract_implicit_equality_constraints)
B(preprocess, is_enabled_online_bounding)
B(preprocess, is_enabled_initial_value_correction)
B(preprocess, is_enabled_extract_dependent_exclusive_or)
B(preprocess, is_enabled_extract_dependent_exclusive_nor)
B(preprocess, is_enabled_extract_dependent_inverted_integers)
B(preprocess, is_enabled_extract_dependent_balanced_integers)
B(preprocess, is_enabled_extract_dependent_constant_sum_integers)
B(preprocess, is_enabled_extract_dependent_constant_difference_integers)
B(preprocess, is_enabled_extract_dependent_constant_ratio_integers)
B(preprocess, is_enabled_extract_dependent_intermediate)
E(restart, restart_mode, restart_mode, RestartMode)
B(neighborhood, is_enabled_binary_move)
B(neighborhood, is_enabled_integer_move)
B(neighborhood, is_enabled_exclusive_or_move)
B(neighborhood, is_enabled_exclusive_nor_move)
B(neighborhood, is_enabled_inverted_integers_move)
B(neighborhood, is_enabled_balanced_integers_move)
B(neighborhood, is_enabled_constant_sum_integers_move)
B(neighborhood, is_enabled_constant_difference_integers_move)
B(neighborhood, is_enabled_constant_ratio_integers_move)
B(neighborhood, is_enabled_aggregation_move)
B(neighborhood, is_enabled_precedence_move)
B(neighborhood, is_enabled_variable_bound_move)
B(neighborhood, is_enabled_trinomial_exclusive_nor_move)
B(neighborhood, is_enabled_soft_selection_move)
B(neighborhood, is_enabled_chain_move)
B(neighborhood, is_enabled_two_flip_move)
B(neighborhood, is_enabled_user_defined_move)
I(neighborhood, chain_move_capacity)
E(neighborhood, chain_move_reduce_mode, chain_move_reduce_mode, ChainMoveReduceMode)
D(neighborhood, chain_move_overlap_rate_threshold)
E(neighborhood, selection_mode, selection_mode, SelectionMode)
E(neighborhood, improvability_screening_mode, improvability_screening_mode, ImprovabilityScreeningMode)
B(neighborhood, is_enabled_integer_step_size_adjuster)
E(output, verbose, verbose, Verbose)
B(output, is_enabled_write_trend)
B(output, is_enabled_store_feasible_solutions)
I(output, feasible_solutions_capacity)
B(output, is_enabled_print_search_behavior_summary)
B(output, is_enabled_print_tree_summary)
B(output, is_enabled_print_parallelization_controller_summary)
B(output, is_enabled_print_variable_update_summary)
B(output, is_enabled_print_constraint_violation_summary)
B(output, is_enabled_print_violation_and_penalty_summary)
B(output, is_enabled_print_tabu_search_parameter)
B(pdlp, is_enabled)
I(pdlp, iteration_max)
D(pdlp, time_max)
D(pdlp, time_offset)
D(pdlp, tolerance)
D(pdlp, step_size_extend_exponent)
D(pdlp, step_size_reduce_exponent)
D(pdlp, restart_threshold_sufficient)
D(pdlp, restart_threshold_necessary)
D(pdlp, restart_threshold_artificial)
I(pdlp, restart_check_interval)
I(pdlp, convergence_check_interval)
I(pdlp, counts_of_ruiz_scaling)
B(pdlp, is_enabled_pock_chambolle_scaling)
I(pdlp, log_interval)
B(lagrange_dual, is_enabled)
I(lagrange_dual, iteration_max)
D(lagrange_dual, time_max)
D(lagrange_dual, time_offset)
D(lagrange_dual, step_size_extend_rate)
D(lagrange_dual, step_size_reduce_rate)
D(lagrange_dual, tolerance)
I(lagrange_dual, queue_size)
I(lagrange_dual, log_interval)
B(local_search, is_enabled)
I(local_search, iteration_max)
D(local_search, time_max)
D(local_search, time_offset)
I(local_search, log_interval)
I(local_search, seed)
I(tabu_search, iteration_max)
D(tabu_search, time_max)
D(tabu_search, time_offset)
I(tabu_search, log_interval)
I(tabu_search, initial_tabu_tenure)
D(tabu_search, tabu_tenure_randomize_rate)
D(tabu_search, initial_modification_fixed_rate)
D(tabu_search, initial_modification_randomize_rate)
E(tabu_search, tabu_mode, tabu_mode, TabuMode)
D(tabu_search, move_preserve_rate)
D(tabu_search, frequency_penalty_coefficient)
D(tabu_search, lagrangian_penalty_coefficient)
D(tabu_search, pruning_rate_threshold)
B(tabu_search, is_enabled_shuffle)
B(tabu_search, is_enabled_move_curtail)
B(tabu_search, is_enabled_automatic_break)
B(tabu_search, is_enabled_automatic_tabu_tenure_adjustment)
B(tabu_search, is_enabled_automatic_iteration_adjustment)
B(tabu_search, is_enabled_initial_modification)
I(tabu_search, intensity_increase_count_threshold)
I(tabu_search, intensity_decrease_count_threshold)
D(tabu_search, iteration_increase_rate)
D(tabu_search, iteration_decrease_rate)
B(tabu_search, ignore_tabu_if_global_incumbent)
I(tabu_search, number_of_initial_modification)
I(tabu_search, seed)
