"""Source of properties.jsonl and MANIFEST.json:  python3 tools/registry.py  rewrites both.

A property is claimed when harness/props/<id>.py exists.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note, level=level))


NOTE = ("Randomised search with shrinking, not proof: the property held on every case generated within the "
        "bounds in DESIGN.md. Trusts numpy, pandas, scikit-learn and Hypothesis. ")

prop("C01", "Training data keeps every labelled row, paired with its own target",
     "Whatever the container (array, frame, series, indicator matrix) and row labels, formatting features and target keeps exactly the rows whose target is not missing, in their order, each with its own features, columns and target, and drops rows only when asked to. "
     "A two-dimensional target array with several columns is read as an indicator matrix (position of the largest value), a target frame by its first column. The caller's data is never modified and anything that is not a table or a target is rejected with a TypeError.",
     ["inputs"], "all feature tables (arrays and frames, any column types and row labels) with every kind of target container and pattern of missing targets",
     "Tests format a handful of frames with default row labels; duplicate or unsorted labels, single rows, all-missing targets and mixed containers are unbounded.",
     ["gama/data_formatting.py"], [["format_x_y", "gama/data_formatting.py"], ["remove_unlabeled_rows", "gama/data_formatting.py"]],
     ["format_x_y"], "property-based testing against a row-wise reference model", NOTE)

prop("C02", "Data files load with the content, names, types and target they contain",
     "Loading a CSV or ARFF file yields every row and column in file order with the values written in it, empty and '?' cells missing, nominal ARFF attributes and CSV columns of text or of at most ten different whole numbers as categories, and CSV header and delimiter detected or as given. "
     "Splitting off a target returns the named column (the last one if none is named) and all other columns in order; an unknown name or file type is an error. "
     "The header summary of a file names the same columns, in order, as loading it, with the declared type of each ARFF attribute.",
     ["inputs"], "all tables of numbers, words and missing values written as CSV (any common delimiter, with or without header) or ARFF, and every choice of target",
     "Tests load a few fixed example files.",
     ["gama/data_loading.py"], [["X_y_from_file", "gama/data_loading.py"], ["load_feature_metadata_from_file", "gama/data_loading.py"]],
     ["X_y_from_file", "file_to_pandas", "load_feature_metadata_from_file"], "round-trip property-based testing (independent writer, generated tables)", NOTE)

prop("C03", "Encoding is numeric, row-wise and the same at prediction as in training",
     "After encoding, every feature reaching a pipeline is numeric (categorical features with more than ten values in regression excepted, which are target-encoded inside the pipeline), columns without categories pass through unchanged (a nearly constant one may be left out), and rows keep their order, number and labels. "
     "Two-valued (and, in classification, more than ten-valued) categories become one ordinal column and three- to ten-valued ones one indicator column per category, so that different categories stay distinguishable. "
     "The encoding of a row depends only on that row and on the training data: encoding new rows one at a time, together or in another order gives the same values, training rows are encoded as they were in training, and unseen categories or missing values never raise. Inside the pipeline, missing values are replaced by the median of the rows it is trained on.",
     ["inputs"], "all training tables with numeric and categorical columns and all prediction tables with the same columns, including unseen categories and missing values",
     "Tests check two fixed frames; consistency between fit-time and predict-time encoding over batches and unseen categories is not sampled.",
     ["gama/utilities/preprocessing.py", "gama/gama.py"], [["basic_encoding", "gama/utilities/preprocessing.py"], ["basic_pipeline_extension", "gama/utilities/preprocessing.py"]],
     ["basic_encoding", "basic_pipeline_extension", "predict"], "metamorphic property-based testing of the encoder", NOTE)

prop("C04", "A search space is read completely, enforced, and never altered",
     "Every component and hyperparameter value of a search space can be chosen and nothing else can: shared hyperparameters resolve to the shared values, parameter checks are not hyperparameters, transformers only preprocess and learners only predict, and anything that is no component is rejected with a TypeError. "
     "When a metric needs class probabilities, exactly the classifiers without them are left out. "
     "Merging two search spaces yields the union of their components and values; neither reading nor merging changes the dictionaries passed in.",
     ["configurations"], "all search spaces over lists, ranges, arrays and callables with shared hyperparameters, alone and merged",
     "Tests read the shipped space and merge one pair.",
     ["gama/configuration/parser.py", "gama/GamaClassifier.py"], [["pset_from_config", "gama/configuration/parser.py"], ["merge_configurations", "gama/configuration/parser.py"], ["GamaClassifier.__init__", "gama/GamaClassifier.py"]],
     ["pset_from_config", "merge_configurations", "fit"], "generated search spaces against a direct reading of the same data", NOTE)

prop("C05", "Variation operators yield valid, bounded and independent pipelines",
     "Every pipeline created, mutated or recombined during a search is one preprocessing chain ending in one learner, of components of the search space with each hyperparameter set exactly once to an allowed value, and has at most the maximum number of steps when that is set. "
     "A mutation or crossover returns a new individual with its own identity, records its parents and origin, and leaves its parents untouched; a mutation changes one thing of its parent (one value, one step replaced, one preprocessing step inserted, or leading steps removed; an overlong pipeline is cut down to its last steps) and a crossover takes one value, or the leading steps, of the other parent. "
     "A mutation or crossover repeats a pipeline that was already evaluated (or failed) only when fifty tries found no other. "
     "None of these changes that is possible is out of reach: over many tries each of them comes up, also for individuals that returned from another process, and random creation yields every length, component and value.",
     ["configurations", "histories"], "all search spaces, length limits, populations and operation sequences",
     "Tests apply each operator to a few fixed individuals of one search space.",
     ["gama/genetic_programming/mutation.py", "gama/genetic_programming/crossover.py", "gama/genetic_programming/operations.py", "gama/genetic_programming/operator_set.py", "gama/genetic_programming/selection.py"],
     [["random_valid_mutation_in_place", "gama/genetic_programming/mutation.py"], ["random_crossover", "gama/genetic_programming/crossover.py"], ["OperatorSet", "gama/genetic_programming/operator_set.py"]],
     ["operator set handed to the search method"], "stateful property-based testing (generated operation sequences, structural oracle)", NOTE)

prop("C06", "A pipeline's text form identifies it and reads back to the same pipeline",
     "Two pipelines have the same text exactly when they have the same steps and hyperparameter values, whatever sequence of operations made them. "
     "Reading a text back gives the pipeline it describes, with the same text, steps and scikit-learn parameters, independent of the order in which hyperparameters are written; the short name lists the steps in execution order. "
     "Text with an unknown component or value, or lacking a hyperparameter, is rejected in strict mode; in non-strict mode only missing hyperparameters are accepted.",
     ["inputs", "histories"], "all pipelines of all search spaces (including the shipped ones) and all operation histories",
     "Tests read back a few fixed strings.",
     ["gama/genetic_programming/components/individual.py", "gama/genetic_programming/components/primitive_node.py", "gama/genetic_programming/components/terminal.py"],
     [["Individual.from_string", "gama/genetic_programming/components/individual.py"], ["PrimitiveNode.__str__", "gama/genetic_programming/components/primitive_node.py"]],
     ["Individual.from_string", "Individual.pipeline_str"], "round-trip and differential property-based testing of the text form", NOTE)

prop("C07", "Compiled and exported pipelines are exactly the ones that were described",
     "Compiling an individual gives a scikit-learn pipeline with the fixed preprocessing first and then its steps in order, each with exactly the hyperparameter values described and defaults otherwise; the steps of two compilations are separate objects (the fixed preprocessing may be shared). "
     "The exported script runs as Python and defines that same pipeline (encoding, imputation, steps and parameters), or for an ensemble the same member pipelines with the same weights and voting; fitted on the training data it predicts as the model does. "
     "Exporting before a model exists is an error, and an existing file is only overwritten when that is allowed.",
     ["programs", "inputs"], "all pipelines over generated search spaces and shipped components, all training tables and both post-processing methods",
     "Tests compare one exported string and one ensemble.",
     ["gama/utilities/export.py", "gama/genetic_programming/compilers/scikitlearn.py", "gama/postprocessing/best_fit.py", "gama/postprocessing/ensemble.py", "gama/gama.py"],
     [["imports_and_steps_for_individual", "gama/utilities/export.py"], ["compile_individual", "gama/genetic_programming/compilers/scikitlearn.py"], ["to_code", "gama/postprocessing"]],
     ["export_script", "Individual.pipeline"], "differential property-based testing: exported program executed and compared with the model", NOTE)

prop("C08", "Validation scores are honest cross-validation scores",
     "The score of a pipeline is, per metric, the mean over the folds of scikit-learn's k-fold cross-validation (stratified for classification) of pipelines trained on the training part only. "
     "With a subsample, each fold trains on that many rows (or that fraction; all of it when it has no more) of its own training part, the same rows for every pipeline, stratified for classification, while the test parts stay complete; no model is ever trained on a row it is tested on. "
     "The reported predictions are out-of-fold: every row's prediction (probabilities when a metric needs them) comes from the returned estimator whose fold tested that row, one estimator per fold.",
     ["inputs", "configurations"], "all datasets, row labels, metrics, fold counts and subsample sizes",
     "Tests evaluate one pipeline on one dataset without subsampling.",
     ["gama/genetic_programming/compilers/scikitlearn.py"], [["evaluate_pipeline", "gama/genetic_programming/compilers/scikitlearn.py"]],
     ["evaluate_pipeline"], "property-based testing with row-recording estimators and an independent cross-validation", NOTE)

prop("C09", "A failing or overdue pipeline is contained and reported, never rewarded",
     "Whatever a pipeline does wrong while it is evaluated (fails in any step or fold, exceeds its time, or runs past the deadline), evaluation returns a record with the error, a score of minus infinity for every metric, and no predictions or estimators; keyboard interrupts and an outer timeout still reach the caller. A pipeline first evaluated after the deadline is never scored (a ValueError or a record with the error). "
     "A successful evaluation has no error and finite start time and durations; with length regularisation the number of steps (encoding and imputation excluded) is appended negated to the score, failed or not. "
     "Evaluation gives up within the smaller of the evaluation time limit and the time to the deadline, and the fitness of the individual equals the recorded score.",
     ["fault_sequences", "inputs"], "all places and kinds of failure and delay in a pipeline's evaluation",
     "Tests use one failing and one slow pipeline.",
     ["gama/genetic_programming/compilers/scikitlearn.py"], [["evaluate_individual", "gama/genetic_programming/compilers/scikitlearn.py"], ["evaluate_pipeline", "gama/genetic_programming/compilers/scikitlearn.py"]],
     ["evaluate_individual"], "fault injection at generated points of generated pipelines", NOTE)

prop("C10", "The record of evaluations is complete and keeps exactly the best models",
     "Every saved evaluation stays in the record with its score and error, can be looked up by its pipeline, and is counted once. "
     "Exactly the best m evaluations without error keep their estimators and (sampled) predictions, readable unchanged from the cache; all others have them discarded and their cache files removed, and failed evaluations never keep any. "
     "The n best are returned best first, all evaluations use the same sample of at most n predictions (class-stratified when asked), and clearing the cache removes its directory.",
     ["histories", "inputs"], "all sequences of saved evaluations (scores with ties, errors, repeated individuals) and all limits",
     "Tests save fixed sequences of strictly increasing or decreasing scores.",
     ["gama/utilities/evaluation_library.py"], [["EvaluationLibrary.save_evaluation", "gama/utilities/evaluation_library.py"], ["EvaluationLibrary.n_best", "gama/utilities/evaluation_library.py"]],
     ["EvaluationLibrary", "cache directory"], "model-based stateful testing against a list model", NOTE)

prop("C11", "Multi-objective selection honours dominance, ranks and elites",
     "A Pareto front always holds items of which none is dominated or equalled by another item that was offered, and for every item offered one at least as good; it reports correctly whether an item entered. "
     "Dominance here means better in every objective (NSGA-II) or at least as good in all and better in one (Pareto front). NSGA-II selection of n returns n distinct members, never one from a worse non-domination front while one from a better front is left out, and the least crowded of the front it cuts; parent selection returns pairs of two different members, each the better of the members it was compared with. "
     "Elimination only removes an individual that is not better than any other in every objective (one that no other is worse than or equal to in all objectives).",
     ["inputs", "histories"], "all populations and objective values, with ties and infinities",
     "Tests use a few small fixed fronts.",
     ["gama/utilities/generic/paretofront.py", "gama/genetic_programming/nsga2.py", "gama/genetic_programming/selection.py"],
     [["ParetoFront.update", "gama/utilities/generic/paretofront.py"], ["nsga2", "gama/genetic_programming/nsga2.py"], ["eliminate_from_pareto", "gama/genetic_programming/selection.py"]],
     ["ParetoFront", "nsga2", "nsga2_select", "eliminate_from_pareto"], "property-based testing against brute-force dominance oracles", NOTE)

prop("C12", "Every submitted job completes exactly once and no worker is left behind",
     "Every job submitted to the asynchronous evaluator is executed once on a worker process and returned exactly once, with its own result or with the exception it raised, whatever it computes, for any number of workers and any interleaving of submitting and waiting (jobs with results or exceptions that can be pickled, which do not end their own process, without a memory limit). "
     "Shared default arguments reach every job that does not set them itself, waiting with nothing outstanding is an error, and an evaluator can not be entered twice. "
     "Leaving the context, normally or by any exception and with jobs still running, ends all worker processes and lets the exception through.",
     ["schedules", "fault_sequences", "histories"], "all submit/wait histories, worker counts, job durations, job failures and ways to leave",
     "Tests run one fixed batch.",
     ["gama/utilities/generic/async_evaluator.py"], [["AsyncEvaluator", "gama/utilities/generic/async_evaluator.py"], ["evaluator_daemon", "gama/utilities/generic/async_evaluator.py"]],
     ["AsyncEvaluator with real processes"], "stateful testing of the real process pool against a reference executor", NOTE, "fault_enumeration")

prop("C13", "Evolution evaluates what it should and its population holds the best seen",
     "Under every order in which evaluations complete, evolutionary search evaluates all start candidates, then offspring of the current population (new random candidates only while it has fewer than three members), keeps as population only successfully evaluated individuals, never more than the population size, and drops one only when the population is full and the dropped one is not better than all others in any trade-off. "
     "It completes exactly the requested number of evaluations, tells every completed evaluation to the subscribers, and continues past failures of any kind. "
     "On restart the population starts again empty from new random candidates (jobs that were still running may join it), and the output is the population at the end, also when the search is interrupted.",
     ["schedules", "fault_sequences", "configurations"], "all completion orders, failure patterns, population sizes, budgets and interruption points",
     "Tests run a short search with one worker order.",
     ["gama/search_methods/async_ea.py"], [["async_ea", "gama/search_methods/async_ea.py"]], ["search output and submitted jobs"],
     "schedule- and fault-generating simulation of the search with an invariant monitor", NOTE, "fault_enumeration")

prop("C14", "Successive halving promotes only the best and returns the highest rung",
     "Rung resources grow by the reduction factor from the minimum to the maximum resource, skipping the lowest rungs as asked, with the top rung at the maximum (the number of rows when that is less). "
     "Under every completion order a candidate moves to the next rung at most once, only after its evaluation there, and only when it is among the best 1/reduction-factor of the evaluations of its rung at that moment (a failed one counts as worst), from the highest rung that has such a candidate; otherwise start candidates, then new random candidates enter the lowest rung. "
     "The search returns the individuals of the highest rung reached when it ends or is interrupted at any point, and evaluations below the top rung are marked as not full.",
     ["schedules", "fault_sequences", "configurations"], "all completion orders, scores, failures, resource settings and interruption points",
     "Tests run one short search.",
     ["gama/search_methods/asha.py"], [["asha", "gama/search_methods/asha.py"]], ["search output and submitted jobs"],
     "schedule- and fault-generating simulation of the search with an invariant monitor", NOTE, "fault_enumeration")

prop("C15", "Any search survives interruption and yields what it evaluated",
     "Random search evaluates its start candidates first and then new random pipelines, and its output is every individual whose evaluation completed, once, in completion order. "
     "Whatever the search method, a timeout or keyboard interrupt at any point of the search phase ends it without an error, keeps the individuals evaluated so far as result (the evaluation that completed in that very moment may be lost), records every completed evaluation, and post-processing then runs on that result. "
     "The candidate list passed by the user is never changed.",
     ["schedules", "crash_points", "fault_sequences"], "all completion orders, failure patterns and interruption points of every search method",
     "Tests interrupt nothing but the time limit.",
     ["gama/search_methods/random_search.py", "gama/gama.py"], [["random_search", "gama/search_methods/random_search.py"], ["Gama._search_phase", "gama/gama.py"]],
     ["fit with each search method"], "interruption injected at generated points of simulated searches", NOTE, "fault_enumeration")

prop("C16", "The final model is the best pipeline found, trained on all data",
     "Without ensembling, the model after a fit is the pipeline of the individual with the best scores (compared metric by metric in the given order, pipeline length last when regularised) among those the search returned, trained once on all labelled training rows, in their order, after encoding. "
     "The individuals are handed to post-processing best first with the encoded data, the labels and the remaining time.",
     ["histories", "inputs"], "all search results and datasets",
     "Tests only check that a model exists and scores well enough.",
     ["gama/gama.py", "gama/postprocessing/best_fit.py"], [["Gama.fit", "gama/gama.py"], ["BestFitPostProcessing.post_process", "gama/postprocessing/best_fit.py"]],
     ["fit", "model"], "generated search results driven through a real fit with recording components", NOTE)

prop("C17", "Ensembles are greedy, weighted and predict the weighted average",
     "The ensemble starts from the best models of the record (one, or ten for ensembles of more than ten) with equal weight and then repeatedly adds, with repetition, the one whose inclusion gives the best score of the weighted average of the validation predictions on the true labels by the first metric, until its total weight is the ensemble size. "
     "Only the best max_models models and hillclimb_size predictions per model are considered, all when not limited. It predicts the weighted average of the members' fold models: the mean for regression, averaged probabilities (or votes, for label metrics) and their most likely class for classification. "
     "A pickled and restored ensemble predicts the same, and pickling does not change the ensemble.",
     ["inputs", "histories"], "all sets of evaluated models, targets, metrics, sample sizes and ensemble sizes",
     "Tests build ensembles of a few dummy models.",
     ["gama/postprocessing/ensemble.py"], [["Ensemble.expand_ensemble", "gama/postprocessing/ensemble.py"], ["build_fit_ensemble", "gama/postprocessing/ensemble.py"]],
     ["EnsemblePostProcessing", "build_fit_ensemble"], "property-based testing against an independent greedy reference", NOTE)

prop("C18", "Predictions have the documented shape, labels and scores",
     "After a fit, predict returns one prediction per row in row order, for classification always one of the original training labels; class probabilities have one column per training label in sorted order, sum to one, and agree with the predicted label. "
     "Predictions are those of the model on the encoded rows, do not depend on the other rows passed with them, and are the same for an array, a frame or a file holding the same values (categories known from training). "
     "The score of labelled data is the first metric's function computed on those predictions (probabilities if it needs them) and the true labels, also when not every label occurs, and scoring or predicting from a file equals doing so on its contents.",
     ["inputs", "configurations"], "all datasets, label types (numbers, text, booleans), containers, metrics and post-processing methods",
     "Tests fit a few fixed datasets and check shapes and thresholds.",
     ["gama/gama.py", "gama/GamaClassifier.py", "gama/GamaRegressor.py"], [["Gama.predict", "gama/gama.py"], ["GamaClassifier.predict_proba", "gama/GamaClassifier.py"], ["Gama.score", "gama/gama.py"]],
     ["predict", "predict_proba", "score", "..._from_file"], "end-to-end property-based testing against an independent reference model", NOTE)

prop("C19", "The output directory holds exactly what was asked for",
     "A run writes only inside its output directory (created when absent; a directory with content is refused and left as it was). "
     "After a fit the directory holds, as asked, nothing (it is gone), the models only, the logs only, or both; a constructor that rejects its arguments leaves nothing behind; cleaning up removes exactly what it names and may be repeated.",
     ["configurations", "histories"], "all store settings, directories (absent, empty, non-empty), post-processing methods and cleanup sequences",
     "Tests check one setting at a time on one run.",
     ["gama/gama.py"], [["Gama.__init__", "gama/gama.py"], ["Gama.cleanup", "gama/gama.py"]], ["file system"],
     "model-based testing of directory histories", NOTE)

prop("C20", "Logs are complete and read back to what happened",
     "The evaluation log has one line per completed evaluation, in order, with the identity, process, start time, durations, score, pipeline and error (and parents and origin, or rung and subsample) of that evaluation, whatever text the error contains. "
     "A report read from the logs of a run lists the same evaluations with those scores, times and pipelines, the hyperparameters of the run, the phases with their durations, the best-so-far per metric, and marks exactly the failed evaluations as unsuccessful; reading while a run is in progress and updating later gives the same report.",
     ["inputs", "histories"], "all sequences of evaluations, error texts, search methods and settings, read at any point",
     "Tests read two recorded logs.",
     ["gama/logging/evaluation_logger.py", "gama/logging/GamaReport.py"], [["EvaluationLogger", "gama/logging/evaluation_logger.py"], ["GamaReport", "gama/logging/GamaReport.py"]],
     ["evaluations.log", "gama.log", "GamaReport"], "round-trip property-based testing (log written by the tool, read by an independent parser and the report)", NOTE)

prop("C21", "The time budget is divided and respected",
     "The phases of a fit share the total time: post-processing keeps its fraction of what remains after preprocessing, the search gets the rest as its limit and deadline, and later phases get what earlier ones left. "
     "The time limit of one evaluation is the given one, or a tenth of the total when none is given, positive and never more than the total; when preprocessing used up the budget the fit fails with an error. "
     "Elapsed and remaining times of activities and in total always add up to the time that passed, also after an activity failed.",
     ["configurations", "histories"], "all budgets, fractions, phase durations and failures (on a simulated clock)",
     "Tests run with one budget and the real clock.",
     ["gama/gama.py", "gama/utilities/generic/timekeeper.py", "gama/utilities/generic/stopwatch.py"], [["TimeKeeper", "gama/utilities/generic/timekeeper.py"], ["Gama.fit", "gama/gama.py"]],
     ["time limits handed to search, evaluation and post-processing"], "model-based testing on a simulated clock", NOTE)

prop("C22", "Callbacks see every evaluation and can not break the search",
     "Every registered callback is called once per completed evaluation, in registration order, with that evaluation, whatever other callbacks do; what callbacks return or raise does not affect the search, its record or its result. "
     "A timeout or keyboard interrupt raised in a callback does end the search, as does a callback that runs on after the search time is over.",
     ["histories", "fault_sequences"], "all sets of callbacks and failures in them, at any evaluation",
     "Tests register one well-behaved callback.",
     ["gama/gama.py"], [["Gama._on_evaluation_completed", "gama/gama.py"], ["Gama._safe_outside_call", "gama/gama.py"]], ["evaluation_completed"],
     "fault injection into generated callbacks of simulated searches", NOTE, "fault_enumeration")

prop("C23", "A seed fixes the result",
     "With the same seed, one worker, the same data and settings and enough time, two runs evaluate the same pipelines in the same order with the same scores and end with the same model and predictions; runs with different seeds are not all alike.",
     ["inputs", "configurations"], "all seeds, datasets, search methods and post-processing methods with one worker",
     "Tests compare one run pair.",
     ["gama/gama.py"], [["random_state", "gama/gama.py"]], ["fit"], "metamorphic testing: repeated runs", NOTE)

prop("C24", "Metrics are scikit-learn's, maximised, and match the task",
     "A metric given by name or scorer scores a fitted model exactly as scikit-learn's scorer of that name; its comparable score is oriented so that higher is better, and it states correctly whether it needs probabilities and which task it belongs to. "
     "One metric or any collection of metrics is accepted in the order given; anything else is rejected. The length of a pipeline is appended as an objective only when regularising.",
     ["inputs", "configurations"], "all supported metrics, label sets, predictions and collections of metrics",
     "Tests construct each metric and score one example.",
     ["gama/utilities/metrics.py"], [["Metric", "gama/utilities/metrics.py"], ["scoring_to_metric", "gama/utilities/metrics.py"]], ["Metric", "scoring_to_metric"],
     "differential property-based testing against scikit-learn", NOTE)

prop("C25", "Repeated fits and several instances do not interfere",
     "An object can be fitted again, on the same or other data, and then searches, predicts, scores and exports as a freshly constructed one (with the same seed) that was given the same start candidates: results of earlier data never leak into the new model. Without given candidates the second search starts from the previous result. "
     "Several objects constructed and used in any interleaving each keep their own workers, limits, directories, records, encodings and models.",
     ["histories"], "all interleavings of construct, fit, predict and cleanup over several instances and datasets",
     "Tests use one instance and mostly one fit.",
     ["gama/gama.py", "gama/search_methods", "gama/postprocessing/ensemble.py"], [["Gama.fit", "gama/gama.py"], ["Gama.__init__", "gama/gama.py"]], ["fit", "predict"],
     "stateful testing of instance histories against fresh instances", NOTE)

prop("C26", "The command line does what its arguments say",
     "The command line loads the given file with the given delimiter and target, runs the task given or implied by the target's type with the given metric, time limits, jobs, length preference, verbosity and output directory, saves the resulting model to the given path and the exported code when asked. "
     "A dry run fits and writes nothing and leaves nothing behind; a missing file, unknown file type or unknown mode is an error before any fitting.",
     ["configurations", "inputs"], "all combinations of arguments and data files",
     "Tests are two dry runs.",
     ["gama/utilities/cli.py"], [["main", "gama/utilities/cli.py"]], ["gama.utilities.cli.main"],
     "generated command lines against the recorded calls they must make", NOTE)

prop("C27", "Settings follow the documented precedence and bad ones are refused",
     "A search or post-processing setting is what the user gave, else what was derived from the data, else the static default, and the description of a search method names exactly the settings the user gave. "
     "Unset jobs mean half of the processors, -1 all; an unknown preset, a non-positive time, zero or too negative jobs, and a length limit above one without preprocessing are errors; presets choose the documented post-processing unless one is given; the deprecated name for the search space still works with a warning.",
     ["configurations"], "all combinations of given, derived and default settings",
     "Tests check a few single values.",
     ["gama/gama.py", "gama/search_methods/base_search.py", "gama/postprocessing/base_post_processing.py"], [["hyperparameters", "gama/search_methods/base_search.py"], ["Gama.__init__", "gama/gama.py"]],
     ["constructors", "hyperparameters"], "property-based testing of generated settings", NOTE)

prop("C28", "Default settings work on any supported data",
     "With the default search space and settings, data of numeric, boolean and categorical columns in any mixture (missing values, constant or empty columns, one or many categories, any row labels, any scale) with labels of any type or a numeric target is fitted without error: pipelines whose components can handle finite numbers are evaluated with a finite score, failures of others are recorded as failures, "
     "and the fitted object predicts a label or finite value for every row of the training data and of new data with missing values or categories never seen. Every component of the default spaces is preprocessing or a learner for its task, and every value listed for a hyperparameter is one the component accepts.",
     ["inputs"], "all tables of supported columns with any target, new data, and all components and values of the default search spaces",
     "Tests fit four clean data sets for a few seconds with whatever pipelines come up.",
     ["gama/gama.py", "gama/data_formatting.py", "gama/utilities/preprocessing.py", "gama/configuration", "gama/genetic_programming/compilers/scikitlearn.py"],
     [["Gama.fit", "gama/gama.py"], ["clf_config", "gama/configuration/classification.py"], ["evaluate_pipeline", "gama/genetic_programming/compilers/scikitlearn.py"]],
     ["fit", "predict", "predict_proba", "score"], "end-to-end property-based testing over generated tables", NOTE)

prop("C29", "The memory limit costs only the worker that uses the most",
     "With a memory limit, a worker process is ended only when the main process and all workers together use more than the limit, and then it is the worker that uses the most; the main process is never ended, and without a limit nothing is. "
     "The ended worker is replaced when it was the last one or when fewer than one in twenty jobs exceeded the limit since the pool last shrank; otherwise the pool goes on with one worker less, so that there is always at least one and never more than configured. "
     "Only the job that the ended worker was executing is lost: all other jobs, running, waiting or submitted later, are executed once and returned with their own result. "
     "With a log file, every line is a time and the usage of the main process and of each current worker.",
     ["schedules", "fault_sequences", "histories"], "all histories of jobs and memory usage, worker counts and limits",
     "Tests never set a memory limit.",
     ["gama/utilities/generic/async_evaluator.py"], [["AsyncEvaluator._control_memory_usage", "gama/utilities/generic/async_evaluator.py"], ["AsyncEvaluator.wait_next", "gama/utilities/generic/async_evaluator.py"]],
     ["AsyncEvaluator with real processes and simulated memory usage"], "stateful testing of the real process pool against a model of its size, with memory usage injected", NOTE, "fault_enumeration")

prop("C30", "Messages reach the terminal, log file and own handlers as configured, once",
     "The terminal shows the messages of gama's loggers at or above the verbosity (warnings when none is given) of the object made last, each exactly once however many objects were made. "
     "When logs are stored, gama.log holds every message of level DEBUG or above since the object was set up, with its time and logger, in order and once, while this object is the one made or fitted last; otherwise there is no such file. "
     "A file that was cleaned up is started anew by the next fit. Handlers the user added to gama's logger stay in place and get every message of their own level.",
     ["histories", "configurations"], "all sequences of making, fitting and cleaning up objects, verbosities, store settings, messages and own handlers",
     "Tests only count handlers or look at no messages at all.",
     ["gama/logging/utility_functions.py", "gama/gama.py"], [["register_stream_log", "gama/logging/utility_functions.py"], ["register_file_log", "gama/logging/utility_functions.py"]],
     ["sys.stdout", "gama.log", "handlers of the logger 'gama'"], "stateful property-based testing against an independent recording handler", NOTE)

prop("C31", "A search uses the whole search space, less what is too large to store",
     "The new pipelines a fit starts with or creates use every component of the search space and no other. Only when models are stored for an ensemble, KNN is left out for data of more than 6,000,000 cells and "
     "PolynomialFeatures for data of more than 50 columns, both counted after one-hot encoding, unless no other component of that kind remains. Each fit decides this for its own data, whatever earlier fits left out.",
     ["inputs", "histories"], "all search spaces, post-processing settings and sequences of data sets around the limits",
     "No test has data of such a size, or fits twice with different sizes.",
     ["gama/gama.py", "gama/genetic_programming/operator_set.py", "gama/genetic_programming/components/individual.py"], [["Gama.fit", "gama/gama.py"], ["Gama._exclude_from_search", "gama/gama.py"]],
     ["start candidates and new pipelines of the search"], "property-based testing against a model of the components in use", NOTE)


def main():
    claimed, missing = [], []
    for p in PROPS:
        (claimed if os.path.exists(os.path.join(HERE, "harness", "props", p["id"].lower() + ".py")) else missing).append(p)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run_check.py --self-test",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 run_check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"].strip(),
        } for p in claimed],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in missing],
        "notes": "No hooks are needed in /repo: checks import the code from /repo's working tree. Generated by tools/registry.py.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    print(f"{len(claimed)} claimed, {len(missing)} not")


if __name__ == "__main__":
    main()
