"""Claimed properties: id -> (level, note)."""
_RT = " Run-time contracts replay the same clauses on the real code (bounded, never counted as proved)."
CLAIMED = {
    "C01": ("proof", "Generation and all variation operators verified for every search space, pipeline length and random draw, function by function (create_random_expression, random_primitive_node, mut_*, crossover_*, random_valid_mutation_in_place)." + _RT),
    "C02": ("proof", "Length arithmetic of every operator, random_valid_mutation_in_place, random_crossover, try_until_new and OperatorSet.mate verified for every maximum length. So is the wiring in Gama.__init__." + _RT),
    "C03": ("proof", "PrimitiveNode.copy (by induction over the contract), copy_as_new, OperatorSet.mutate/mate and the frame of every operator verified." + _RT),
    "C04": ("proof", "Exact effect and exact refusal condition of each operator verified for every individual." + _RT),
    "C05": ("proof", "All obligations of update/__init__/clear/__len__/__getitem__ discharged for every number of items and objectives." + _RT),
    "C06": ("proof", "dominates, crowd_compare, NSGAMeta.__init__, fast_non_dominated_sort, crowding_distance_assignment (real arithmetic), nsga2 and nsga2_select verified for every population and number of objectives." + _RT),
    "C07": ("proof", "save_evaluation, n_best, evaluations and the comparison operators verified against the library invariant for every history (heapq assumed)." + _RT),
    "C08": ("proof", "to_disk, remove_from_disk, estimators, predictions, _process_predictions, determine_sample_indices, save_evaluation, clear_cache verified for every history (file system, pickle, numpy/sklearn sampling assumed)." + _RT),
    "C09": ("proof", "eliminate_from_pareto, async_ea and random_search verified for every order of results, failure pattern, population size and limit (evaluator through its C13 contract, operators through C03/C05)." + _RT),
    "C10": ("proof", "asha with get_job, start_new_job and evaluate_on_rung verified against a rung invariant for every order of results, reduction factor, number of rungs and interruption (math.log assumed exact)." + _RT),
    "C11": ("proof", "evaluate_pipeline, evaluate_individual, Metric and scoring_to_metric verified for every fault, time limit and interruption at every call into a dependency (scikit-learn, stopit assumed)." + _RT),
    "C12": ("proof", "evaluate_pipeline verified with loop invariants over folds and metrics, with ghost sets of training rows, for every data set, fold assignment and subsample (scikit-learn splitters and cross_validate, numpy indexing assumed)." + _RT),
    "C13": ("proof", "AsyncFuture.execute, submit, evaluator_daemon, wait_next, opening and closing verified for every job, outcome and queue timing, and a lemma that these steps deliver each job exactly once (multiprocessing, psutil assumed)." + _RT),
    "C14": ("proof", "Every method of Ensemble, EnsembleClassifier and EnsembleRegressor that builds, scores or predicts, and build_fit_ensemble, verified for every library, weights and size; floats treated as reals, one-hot encoder and metric assumed." + _RT),
    "C15": ("proof", "Stopwatch, TimeKeeper, Activity, Gama.fit, Gama._search_phase and Gama.__init__ verified for every clock, budget, activity history, failure and setting (time as real numbers; stopit, os, logging assumed)." + _RT),
    "C16": ("proof", "format_x_y, format_y, remove_unlabeled_rows, infer_categoricals_inplace, Gama.fit, GamaClassifier.fit, _prepare_for_prediction, predict, predict_proba and X_y_from_file verified for every input type, index and pattern of missing targets (pandas/numpy selection and conversion assumed; reading files is checked at run time only)." + _RT),
    "C17": ("proof", "select_categorical_columns, basic_encoding, basic_pipeline_extension and their use in Gama.fit verified for every frame (number and kind of columns, number of categories); category_encoders assumed." + _RT),
    "C18": ("proof", "pset_from_config and merge_configurations verified with effect invariants over keys, hyperparameters and values, for every valid configuration (distinct class names)." + _RT),
    "C19": ("proof", "primitive_node_to_sklearn, compile_individual, Individual.pipeline, the text of values, terminals and components, imports_and_steps_for_individual, individual_to_python, both single-pipeline exports and Gama.export_script verified for every individual and every fixed preprocessing (text as a sequence of pieces); the text of fixed transformers and of ensembles is checked at run time only." + _RT),
    "C20": ("proof", "PrimitiveNode.__str__, Terminal/Primitive text, find_primitive, find_terminal, PrimitiveNode.from_string and Individual.from_string verified for every search space, number of nodes and hyperparameters (text as a sequence of pieces, str.split on piece boundaries assumed)." + _RT),
    "C21": ("proof", "_on_evaluation_completed with _safe_outside_call, evaluation_completed, the registrations in Gama.__init__ and OperatorSet.wait_next verified for every number of callbacks, every outcome of each and every state of the clock." + _RT),
    "C22": ("proof", "Gama.cleanup for every directory content, Gama.fit for every storage setting and outcome, and Gama.__init__ (refusal, location of logs and cache) verified; os and shutil assumed." + _RT),
    "C23": ("proof", "log_line, log_evaluation, EvaluationLogger.__init__ for any values and separator; loggers of the search methods; Gama.__init__ registers the log; csv reading and text of values assumed." + _RT),
    "C24": ("proof", "GamaClassifier.fit then _predict/_predict_proba for any labels and class counts; ensemble prediction; estimators' and LabelEncoder's own behaviour assumed." + _RT),
    "C25": ("proof", "hyperparameters and _overwrite_hyperparameter_default for any table; constructors, dynamic_defaults, search, Ensemble post-processing and Gama.__init__." + _RT),
    "C29": ("proof", "Gama.fit, Gama._search_phase (every way the search can end), warm start, a further search of the asynchronous EA and best-fit post-processing verified for any number of individuals and fitness values." + _RT),
}
