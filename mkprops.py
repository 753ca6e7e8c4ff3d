"""Writes properties.jsonl (kept as code so that statements stay easy to edit)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mech])))
G = "gama/genetic_programming/"
prop("C01", "Every generated or varied pipeline is well formed for its search space",
 "Every machine learning pipeline that is randomly generated, mutated or obtained by crossover consists of components of the search space only: its last step is an estimator, all other steps are preprocessors, and every step has exactly one value for each of its declared hyperparameters, each value taken from the values allowed for that hyperparameter. This holds for every search space and every outcome of the random choices, and a newly generated pipeline has as many steps as were asked for.",
 ["inputs", "configurations", "programs"], "all search spaces, all well-formed parents, all outcomes of random choices",
 "Tests vary a handful of fixed individuals with one search space and fixed seeds; the claim is for every search space, parent and draw.",
 [G+"operations.py", G+"mutation.py", G+"crossover.py", G+"components/individual.py", G+"components/primitive_node.py"],
 [("random generation", G+"operations.py:create_random_expression, random_primitive_node, random_terminals_for_primitive"), ("variation", G+"mutation.py, "+G+"crossover.py")])
prop("C02", "Pipelines never exceed the maximum length",
 "When a maximum pipeline length is configured, no randomly generated, mutated or crossed-over pipeline produced by the search's variation operators is longer than that maximum. An individual that is already at the maximum is never extended, and one that is longer is only shortened.",
 ["inputs", "configurations"], "all maximum lengths >= 1, all parents, all outcomes of random choices",
 "Tests check single operators on a few individuals of length one to three.",
 [G+"operator_set.py", G+"mutation.py", G+"crossover.py", G+"operations.py"],
 [("choice of mutation", G+"mutation.py:random_valid_mutation_in_place"), ("crossover bound", G+"crossover.py:crossover_primitives"), ("offspring creation", G+"operator_set.py:OperatorSet.mate, mutate")])
prop("C03", "Creating offspring leaves parents untouched and offspring independent",
 "Creating an offspring by mutation or crossover never changes a parent: its steps, hyperparameter values, fitness and identity stay as they were, also when the offspring itself is varied again later. Every offspring has a new identity, no fitness, and records the identities of exactly the individuals it was created from.",
 ["inputs", "histories"], "all parents and all sequences of variation",
 "Tests inspect one level of variation on fixed individuals; aliasing shows only in particular positions and after further variation.",
 [G+"components/individual.py", G+"components/primitive_node.py", G+"operator_set.py"],
 [("copying", G+"components/individual.py:copy_as_new; "+G+"components/primitive_node.py:copy"), ("offspring creation", G+"operator_set.py:OperatorSet.mate, mutate, mutate_or_mate")])
prop("C04", "Each variation operator makes exactly the change it announces",
 "Replacing a hyperparameter changes exactly one hyperparameter value of one step to a different allowed value; replacing a step changes exactly one step to a different component of the same kind; extending adds exactly one step and shrinking removes a positive number of steps from the front while keeping the estimator; crossover of hyperparameters swaps one hyperparameter of the same kind between two individuals, and crossover of steps swaps the preceding parts of two pipelines. Everything else of the pipeline stays the same, and an operator that is offered as applicable can always be applied.",
 ["inputs"], "all well-formed individuals, all outcomes of random choices",
 "Tests check representative results of each operator with fixed seeds.",
 [G+"mutation.py", G+"crossover.py", G+"components/individual.py", G+"components/primitive_node.py"],
 [("mutations", G+"mutation.py:mut_*"), ("crossover", G+"crossover.py:crossover_terminals, crossover_primitives"), ("replacement", G+"components/individual.py:replace_primitive, replace_terminal")])
prop("C05", "The Pareto front holds exactly the non-dominated items",
 "After any sequence of insertions the front contains exactly those inserted items which no other inserted item matches or beats on all objectives, keeping the first of several items with equal objectives. Inserting reports whether the item entered the front.",
 ["inputs", "histories"], "all sequences of insertions, any number of objectives",
 "Tests insert a few fixed two- and three-objective tuples.",
 ["gama/utilities/generic/paretofront.py"],
 [("insertion", "gama/utilities/generic/paretofront.py:ParetoFront.update"), ("construction", "gama/utilities/generic/paretofront.py:ParetoFront.__init__")])
prop("C06", "NSGA-II ranks, truncates and selects parents correctly",
 "Non-dominated sorting puts every individual in exactly one front, the k-th front being the individuals not dominated (beaten on every objective) by anything outside the first k-1 fronts, with rank k. Selecting n individuals returns n different members of the population such that no unselected individual has a better rank than a selected one, ties in the last front going to the least crowded (boundary individuals first). Parent selection returns the requested number of pairs, each of two different individuals, each winning a tournament on rank and then crowding.",
 ["inputs"], "all populations, all objective values, all outcomes of random choices",
 "Tests sort a couple of fixed point sets; one of them tolerated a wrong rank for the second front.",
 [G+"nsga2.py", G+"selection.py"],
 [("sorting", G+"nsga2.py:fast_non_dominated_sort"), ("crowding", G+"nsga2.py:crowding_distance_assignment, NSGAMeta.crowd_compare"), ("selection", G+"nsga2.py:nsga2, nsga2_select")])
prop("C07", "The evaluation library always knows the best evaluations",
 "At any moment the library remembers every evaluation that was saved and keeps the artefacts of exactly the m best of the successful ones, m being the configured number. Asking for the n best with their pipelines returns them from best to worst by score, then by pipeline length, and never a failed evaluation; every pipeline can be looked up to its latest evaluation.",
 ["inputs", "histories"], "all sequences of saved evaluations and all sizes m, n",
 "Tests save a few evaluations in one order.",
 ["gama/utilities/evaluation_library.py"],
 [("bounded heap", "gama/utilities/evaluation_library.py:EvaluationLibrary.save_evaluation"), ("ordering", "gama/utilities/evaluation_library.py:Evaluation.__lt__, EvaluationLibrary.n_best")])
prop("C08", "Evaluation artefacts survive exactly as long as they are needed",
 "The predictions and fitted pipelines of an evaluation that belongs to the best kept ones can be retrieved unchanged at any time, whether kept in memory or moved to disk, and those of every other evaluation are discarded from memory and disk. When predictions are sampled, each kept evaluation stores its predictions for the same fixed sample of rows, and asking for storage to be cleaned up leaves no file behind.",
 ["histories", "inputs"], "all sequences of saves, all cache settings",
 "Tests check one save and one load.",
 ["gama/utilities/evaluation_library.py"],
 [("discard", "gama/utilities/evaluation_library.py:EvaluationLibrary._process_predictions, save_evaluation; Evaluation.remove_from_disk"), ("disk", "gama/utilities/evaluation_library.py:Evaluation.to_disk, predictions, estimators")])
prop("C09", "The evolutionary search keeps a bounded, elitist, valid population",
 "The asynchronous evolutionary search first submits every initial individual and then, one per processed result, offspring made from its population (new individuals while that has fewer than three members), until its limit or budget ends; it never waits while nothing is being evaluated. After each processed result its population has at most the configured size and contains only individuals that were evaluated successfully: a successful individual joins, and only if there is no room exactly one member leaves, for which no other member is at most as good on every objective and worse on one. Random search reports every individual whose evaluation gave a result, in the order of the results.",
 ["inputs", "schedules", "histories"], "all orders of arrival of evaluation results, all failure patterns, all population sizes",
 "Tests run one short search in which every evaluation succeeds, in submission order.",
 ["gama/search_methods/async_ea.py", G+"selection.py", "gama/search_methods/random_search.py"],
 [("main loop", "gama/search_methods/async_ea.py:async_ea"), ("elimination", G+"selection.py:eliminate_from_pareto"), ("random search", "gama/search_methods/random_search.py:random_search")])
prop("C10", "Successive halving promotes only top candidates, each at most once",
 "Successive halving evaluates each individual at most once per rung and on a higher rung only after its result on the rung below, and an individual is promoted only while it is among the best fraction of the results known for its rung, that fraction being one over the reduction factor. Rung k uses the minimum resource times the reduction factor to the power k, but at most the maximum resource, which the last rung uses; an evaluation below the last rung does not count as a full one. Stopping early, by time or by the user, returns the individuals with results on the highest rung that has any.",
 ["schedules", "histories", "configurations"], "all orders in which results arrive, all resource settings",
 "Tests run one short optimisation.",
 ["gama/search_methods/asha.py"],
 [("promotion", "gama/search_methods/asha.py:asha, get_job"), ("resources", "gama/search_methods/asha.py:evaluate_on_rung")])
prop("C11", "An evaluation reports truthful scores, or failure without scores",
 "A successful evaluation carries one score per requested metric, each the mean cross-validation score with the sign such that higher is better, followed by the negated pipeline length as last objective; a fold which lacks one of the classes of the training data is scored as well. An evaluation that fails or runs out of its time limit reports the error, the worst possible value for each metric, no predictions and no fitted pipelines, and never raises into the search (only the end of the whole search or an interruption by the user is passed on), and the time allowed is the smaller of its own limit and the time until the deadline.",
 ["inputs", "fault_sequences"], "all pipelines, all failures at fitting, predicting or scoring, all timeouts and deadlines",
 "Tests evaluate a few working pipelines and one failing pipeline.",
 [G+"compilers/scikitlearn.py", "gama/utilities/metrics.py"],
 [("evaluation", G+"compilers/scikitlearn.py:evaluate_pipeline, evaluate_individual"), ("metrics", "gama/utilities/metrics.py:Metric")])
prop("C12", "Out-of-fold predictions never come from a model that saw the row",
 "Each row's cross-validated prediction is made by a pipeline fitted without that row, every row is predicted exactly once and in the order of the data, also when training data is subsampled: then only the training part of each fold is reduced, to the requested size. Class probabilities are predicted exactly if one of the metrics requires them, and scores are computed per fold by the requested metrics.",
 ["inputs"], "all data sets, folds, subsample sizes",
 "Tests compare shapes and one accuracy.",
 [G+"compilers/scikitlearn.py"],
 [("folds", G+"compilers/scikitlearn.py:evaluate_pipeline")])
prop("C13", "Every submitted job is delivered exactly once with its own outcome",
 "For every job submitted to the parallel evaluator exactly one outcome is delivered, which is the result or the exception of that very job, called with its own arguments and the shared ones, no matter in which order jobs finish and whether they return, raise or return unusual values (as long as these can be transferred between processes and workers are not killed from outside; an outcome too large to be transferred is delivered as a failure). Waiting for a result when nothing is outstanding is an error instead of waiting forever, and after the evaluator is closed no worker processes are left.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of submission, completion and failure",
 "Tests run a few sleeping jobs.",
 ["gama/utilities/generic/async_evaluator.py"],
 [("delivery", "gama/utilities/generic/async_evaluator.py:AsyncEvaluator.submit, wait_next, evaluator_daemon"), ("futures", "gama/utilities/generic/async_evaluator.py:AsyncFuture.execute")])
prop("C14", "Ensembles weight, average and grow their models correctly",
 "With one evaluation per pipeline, the ensemble's prediction (and each intermediate ensemble's) is the average of its models' predictions weighted by the number of times each model was included, and its size is the sum of those counts. It starts from the requested number of best single models and each growth step includes a model for which the resulting score on the stored validation predictions is the best among all candidates, up to the requested size. Class probabilities have one column per class in the order of the sorted class labels and sum to one, and the predicted class has the highest of them.",
 ["inputs", "histories"], "all model libraries, predictions, weights and ensemble sizes",
 "Tests build one or two small ensembles from fixed predictions.",
 ["gama/postprocessing/ensemble.py"],
 [("weights", "gama/postprocessing/ensemble.py:Ensemble._add_model, _total_model_weights, _averaged_validation_predictions"), ("growth", "gama/postprocessing/ensemble.py:Ensemble.expand_ensemble, build_initial_ensemble"), ("prediction", "gama/postprocessing/ensemble.py:EnsembleClassifier.predict_proba, EnsembleRegressor.predict")])
prop("C15", "The time budget is accounted for and divided correctly",
 "The time left is always the configured budget minus the time spent on all activities of the current fit, and an activity ends when its block ends, however it ends. The search receives, in whole seconds, what is left minus the share reserved for post-processing and is stopped after that time, keeping what it found; no evaluation may run beyond the end of the search; post-processing receives what is left; without time left no search is started. The limit per evaluation is as given, else about a tenth of the budget but at least a second, and never more than the budget; the number of workers is as given, -1 meaning all cores, else half of them but at least one; settings that are not positive are refused.",
 ["inputs", "histories", "fault_sequences"], "all budgets, activity sequences, exceptions in activities",
 "Tests check a short sequence of activities that end normally.",
 ["gama/utilities/generic/timekeeper.py", "gama/utilities/generic/stopwatch.py", "gama/gama.py"],
 [("accounting", "gama/utilities/generic/timekeeper.py:TimeKeeper; gama/utilities/generic/stopwatch.py:Stopwatch"), ("division", "gama/gama.py:Gama.fit, _search_phase"), ("settings", "gama/gama.py:Gama.__init__")])
prop("C16", "Rows stay aligned and only unlabelled rows are dropped",
 "Formatting the input never changes which target belongs to which row of features nor any value, whatever the type or index labels of the input (array, series, frame; a target frame means its first column, a target matrix its indicated class). Exactly the rows without a target value are removed from features and targets alike, before anything is learned from them, and this is the data that search, the evaluations in it and post-processing get. Prediction inputs keep all rows and their order, arrays get the column names and types of the training data, and they are encoded by the encoding fitted on the training data. From a file, the target is the named column, else the last one, and the features are all others. Fitting, predicting and scoring from a file use that data.",
 ["inputs"], "all array-like and frame inputs, all indices (also duplicated, unsorted), all patterns of missing targets, also string targets",
 "Tests use default indices and one missing pattern.",
 ["gama/data_formatting.py", "gama/data_loading.py", "gama/gama.py", "gama/GamaClassifier.py"],
 [("formatting", "gama/data_formatting.py:format_x_y, format_y, remove_unlabeled_rows"), ("use", "gama/gama.py:Gama.fit, _prepare_for_prediction; gama/GamaClassifier.py:fit")])
prop("C17", "Every categorical column is encoded exactly once, the rest unchanged",
 "The preprocessing fitted on the training data encodes each categorical column by exactly one encoder, chosen by the number of its categories that occur (missing values not counted): one-hot for three to ten, integer codes for fewer, and for more integer codes in classification and encoding by the target within the pipeline in regression. All other columns keep their values (only columns that do not vary in the training data may be dropped), no row is lost or moved, and unknown or missing categories at prediction time neither raise nor change other columns; missing values are imputed last, within the pipeline.",
 ["inputs"], "all frames with any mixture of column types and numbers of categories",
 "Tests check one frame.",
 ["gama/utilities/preprocessing.py", "gama/gama.py"],
 [("encoders", "gama/utilities/preprocessing.py:basic_encoding, select_categorical_columns, basic_pipeline_extension"), ("use", "gama/gama.py:Gama.fit")])
prop("C18", "Search space configuration is read completely and exactly",
 "Parsing a search space yields exactly one component per configured algorithm, of the kind its base class implies, whose hyperparameters are exactly the configured ones with exactly the configured values, own values taking precedence over shared ones of the same name. Merging two configurations unites algorithms, hyperparameters and values of both without modifying either, and preconditions are attached to their own algorithm.",
 ["configurations", "inputs"], "all valid configurations (classes with distinct names, keys other than the reserved data and prediction)",
 "Tests parse the bundled configurations and merge two small ones.",
 ["gama/configuration/parser.py"],
 [("parsing", "gama/configuration/parser.py:pset_from_config"), ("merging", "gama/configuration/parser.py:merge_configurations")])
prop("C19", "Compiled and exported pipelines equal the individual they come from",
 "Compiling an individual yields a pipeline whose steps are, in order, the individual's preprocessors and estimator, each constructed with exactly the individual's hyperparameter values, preceded by the fixed preprocessing steps. The exported script defines the same steps with the same parameters and imports what it uses, for hyperparameter values whose text is Python (numbers, strings, None, booleans, named functions and classes); for an ensemble, those of every model with its weight. The script is written to the file asked for and no other, and replaces an existing one only if that is allowed.",
 ["programs", "inputs"], "all individuals of all search spaces",
 "Tests compile and export a few fixed individuals.",
 [G+"compilers/scikitlearn.py", "gama/utilities/export.py", G+"components/individual.py", G+"components/primitive_node.py"],
 [("compile", G+"compilers/scikitlearn.py:compile_individual, primitive_node_to_sklearn; "+G+"components/individual.py:Individual.pipeline"), ("export", "gama/utilities/export.py:individual_to_python, imports_and_steps_for_individual; gama/gama.py:Gama.export_script")])
prop("C20", "A pipeline's text form is parsed back to the same pipeline",
 "Writing an individual as text and reading it back with the same search space gives an individual with the same steps and hyperparameter values and the same text. Text that names an unknown component, hyperparameter or value is refused; text that lacks a hyperparameter is refused unless leniency was asked for, and then exactly the named steps and values are kept. (Names and values whose text has no parenthesis and no comma followed by a space, as the code documents.)",
 ["inputs", "programs"], "all individuals of all search spaces",
 "Tests round-trip a few fixed individuals.",
 [G+"components/individual.py", G+"components/primitive_node.py", G+"components/terminal.py"],
 [("text", G+"components/individual.py:pipeline_str, from_string"), ("parse", G+"components/primitive_node.py:PrimitiveNode.from_string")])
prop("C21", "A failing callback never stops the search or other callbacks",
 "Every callback registered for completed evaluations is called once per completed evaluation, in order of registration, with that evaluation. An exception in a callback is contained: it neither reaches the search nor prevents the other callbacks, except the exceptions that stop the search (its time limit, and anything that is not an ordinary exception, such as a keyboard interrupt), which are passed on.",
 ["fault_sequences", "histories"], "all sets of callbacks, all exceptions, all sequences of evaluations",
 "Tests register one failing callback.",
 ["gama/gama.py", "gama/genetic_programming/operator_set.py"],
 [("dispatch", "gama/gama.py:Gama._on_evaluation_completed, _safe_outside_call, evaluation_completed"), ("report", "gama/genetic_programming/operator_set.py:OperatorSet.wait_next")])
prop("C22", "Storage cleanup keeps exactly what was asked to be kept",
 "After fitting, the output directory keeps exactly what the storage setting asks for: logs, models, both or nothing. Cleaning up never touches files outside the instance's output directory, or files in it that are neither logs nor models, and an output directory that already contains files is refused instead of being overwritten.",
 ["configurations", "histories"], "all storage settings, all directory states",
 "Tests check two settings.",
 ["gama/gama.py"],
 [("cleanup", "gama/gama.py:Gama.cleanup, fit"), ("refusal", "gama/gama.py:Gama.__init__")])
prop("C23", "The evaluation log has one complete, parseable row per evaluation",
 "The evaluation log has one header and then exactly one row per logged evaluation, and reading it back as a csv file with the same single-character separator yields the values that were logged (times in the time format of the logs, everything else as text), whatever quotes, separators or line breaks they contain. Each row has the same columns as the header (two or more), among them the individual's identity, pipeline, score, start time, duration and error unless other columns were asked for.",
 ["inputs", "histories"], "all evaluations, extra fields, separators and field contents",
 "Tests do not parse the log back.",
 ["gama/logging/evaluation_logger.py"],
 [("row", "gama/logging/evaluation_logger.py:EvaluationLogger.log_evaluation, log_line")])
prop("C24", "Predictions are given in the label space of the training targets",
 "A fitted classifier predicts only labels that occurred in the training targets, as they were given (text, integers, floats, booleans), its probability columns follow the sorted order of those labels, and the label an ensemble predicts is one of highest probability. Label encoding is inverted exactly, also after unlabelled rows were removed.",
 ["inputs"], "all label types and values, all class counts",
 "Tests use integer and one string data set.",
 ["gama/GamaClassifier.py", "gama/postprocessing/ensemble.py", "gama/gama.py"],
 [("encoding", "gama/GamaClassifier.py:fit, _predict, _predict_proba, _encode_labels"), ("ensemble labels", "gama/postprocessing/ensemble.py:EnsembleClassifier")])
prop("C25", "Hyperparameters of search methods resolve user over dynamic over default",
 "A search method's or post-processing step's hyperparameter has the value the user gave (any value but None, also a falsy one), else the value determined dynamically, else its documented default; the only exception is a maximum resource beyond the data, which reverts to its default. Setting or overwriting one hyperparameter never affects another, an unknown name is refused, and searches, ensembles and the evaluation library run with the resolved values.",
 ["inputs", "configurations"], "all subsets of user-set and dynamically-set hyperparameters, all values including falsy ones",
 "Tests set one or two values.",
 ["gama/search_methods/base_search.py", "gama/postprocessing/base_post_processing.py"],
 [("resolution", "gama/search_methods/base_search.py:BaseSearch.hyperparameters, _check_base_search_hyperparameters"), ("overwrite", "gama/search_methods/base_search.py:BaseSearch._overwrite_hyperparameter_default, dynamic_defaults")])
prop("C26", "A seeded run is reproducible",
 "With a fixed random seed and a single worker, two runs on the same data produce the same sequence of pipelines.",
 ["configurations", "schedules"], "all seeds, data sets and timings",
 "Depends on wall-clock time, process scheduling and library internals.",
 ["gama/gama.py"], [("seeding", "gama/gama.py:Gama.__init__")])
prop("C27", "Fitting returns within the time budget",
 "Fitting ends within the total time budget plus a small tolerance.",
 ["inputs", "schedules", "fault_sequences"], "all data sets, search spaces and machines",
 "Depends on the duration of third-party training code.",
 ["gama/gama.py", "gama/utilities/generic/async_evaluator.py"], [("limit", "gama/gama.py:Gama._search_phase")])
prop("C28", "Worker memory stays within the configured limit",
 "The evaluator keeps the total memory of its worker processes under the configured limit by restarting the largest one.",
 ["schedules", "fault_sequences"], "all jobs and memory behaviours",
 "Depends on operating system memory accounting.",
 ["gama/utilities/generic/async_evaluator.py"], [("limit", "gama/utilities/generic/async_evaluator.py:AsyncEvaluator._control_memory_usage")])
prop("C29", "The search's result reaches the final model, best pipeline first",
 "However the search ends (by itself, at its time limit or by an interrupt), its individuals are the result: post-processing receives each of them exactly once, best first by their fitness values (compared in order, higher is better), and what it returns is the model; best-fit post-processing trains the first one on all data. A search starts from the given warm-start individuals, else from the individuals of the previous fit, else from 50 new ones, and evaluates each of them; a further fit works like the first. A warm start with anything but individuals is refused before the search, and an error of the search is passed on without a model.",
 ["inputs", "histories", "fault_sequences"], "all numbers of individuals and fitness values, all ways a search can end, all sequences of fits",
 "Tests fit once with a couple of individuals.",
 ["gama/gama.py", "gama/search_methods/async_ea.py", "gama/postprocessing/best_fit.py"],
 [("search phase", "gama/gama.py:Gama._search_phase"), ("final model", "gama/gama.py:Gama.fit, gama/postprocessing/best_fit.py:BestFitPostProcessing.post_process"), ("restart", "gama/search_methods/async_ea.py:AsyncEA.search, async_ea")])
with open("/verif/properties.jsonl", "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
