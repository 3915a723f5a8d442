"""Writes properties.jsonl and MANIFEST.json from the table below (properties with registered rules are claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import vp.check as C
C.load_rules()

SK = "gama/genetic_programming/compilers/scikitlearn.py"
AE = "gama/utilities/generic/async_evaluator.py"
GP = "gama/genetic_programming/"
EA, RS, AS = ("gama/search_methods/%s.py" % x for x in ("async_ea", "random_search", "asha"))
EN, BF = "gama/postprocessing/ensemble.py", "gama/postprocessing/best_fit.py"
LIB = "gama/utilities/evaluation_library.py"
GA, GC, GR = "gama/gama.py", "gama/GamaClassifier.py", "gama/GamaRegressor.py"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism
P = [
("C01", "A failing pipeline never breaks the run and never looks successful",
 "Whatever an evaluated pipeline does (raises while being built, fitted, or scored, runs out of memory, or exceeds its time limit), the evaluation finishes with a record that carries the error and the worst possible score for every metric. A failed evaluation is never recorded without its error, and a successful one never carries an error.",
 ["inputs", "fault_sequences"], "every pipeline, every data set, every exception raised at any point of an evaluation",
 "tests evaluate a handful of well-behaved pipelines and one or two failures; the failure point is arbitrary third-party code",
 [SK, AE], ["the evaluation of a pipeline is wrapped in a handler that returns the failure record", "the evaluation record is built from that outcome", "a worker stores result or exception in the future"]),
("C02", "Timeouts and interrupts always get through",
 "When the time limit of the search or of an evaluation is reached, or the user interrupts, no part of the program swallows that signal and keeps on working: it always reaches the point that ends the phase. User callbacks cannot suppress it either.",
 ["schedules", "fault_sequences"], "every instruction at which the asynchronous timeout or interrupt can arrive",
 "the exception is raised asynchronously at an arbitrary instruction; tests time out at one or two points only",
 [GA, SK, AE, EN, "gama/utilities/generic/timekeeper.py"], ["every exception handler in the package that can see a timeout or interrupt either re-raises it, runs in a worker process only, or ends the phase"]),
("C03", "Every finished evaluation reaches every observer exactly once, unchanged",
 "Each submitted evaluation, unless its worker dies or is stopped for using too much memory, is executed once by one worker, handed back once with its own outcome, and each one with a result is delivered exactly once to every registered observer (user callbacks, the evaluation library, and the evaluation log) and to the search. An observer that raises does not affect other observers or the search.",
 ["schedules", "histories", "inputs"], "every order in which workers finish, every set of observers, every callback behaviour",
 "order and interleaving of worker results and the behaviour of user callbacks are arbitrary",
 [AE, GP + "operator_set.py", GA, EA, RS, AS], ["queues between search and workers", "operator set forwards finished evaluations to the callback", "callbacks are called in isolation"]),
("C04", "Evaluations get the configured time limit, never past the end of the search",
 "An evaluation is limited to the smaller of the user's maximum evaluation time and the time left until the search phase ends, and everything it does (building, fitting, predicting, scoring) is inside that limit. No search method replaces this limit.",
 ["inputs", "schedules", "configurations"], "every evaluation, whenever it is submitted, with every configured limit",
 "tests use a few limits and never observe evaluations close to the end of the phase",
 [SK, GA, EA, RS, AS], ["evaluation function configured with limit and deadline", "timeout context around all work of an evaluation"]),
("C05", "The total time budget is divided without exceeding it",
 "The search receives exactly the part of the remaining budget not reserved for post-processing, post-processing receives what is left, and each phase's time is measured from its own start to its own end even if it fails. The remaining time is always total budget minus time already used, and a new fit starts with a fresh budget.",
 ["inputs", "histories", "configurations"], "every budget, every division, every sequence of phases and repeated fits",
 "tests only check one phase at a time with tiny sleeps",
 [GA, "gama/utilities/generic/timekeeper.py", "gama/utilities/generic/stopwatch.py"], ["time keeper with activities", "division of the remaining time by the post-processing fraction"]),
("C06", "No generated pipeline exceeds the maximum length",
 "With a maximum pipeline length configured, every pipeline that random generation, mutation, or crossover produces has at most that many steps, and at least the estimator. A mutation of a longer pipeline brings it down to the maximum.",
 ["inputs", "histories", "configurations"], "every parent, every search space, every maximum length and every random choice",
 "tests sample a few random mutations and crossovers of fixed pipelines",
 [GP + "mutation.py", GP + "crossover.py", GP + "operations.py", GA], ["conditions on the mutation options", "crossover returns the child that fits first", "random generation draws its length within bounds"]),
("C07", "Creating offspring never changes the parents",
 "Mutation and crossover work on independent copies made anew for each attempt: the parents' steps, hyperparameters, identity, fitness, and meta-information stay as they were. Offspring have their own identity, no fitness yet, and the same way of being compiled.",
 ["inputs", "histories"], "every parent and every sequence of operators, including repeated attempts",
 "aliasing only shows when a particular operator touches a shared node after the parent was used again",
 [GP + "operator_set.py", GP + "components/individual.py", GP + "components/primitive_node.py", GP + "selection.py"], ["copy before variation", "recursive copy of steps"]),
("C08", "Generated pipelines always stay inside the configured search space",
 "Every generated, mutated, crossed-over, or parsed pipeline ends in one estimator preceded only by transformers from the user's search space, and each step has exactly one value for each of its hyperparameters, taken from the values the search space lists for that hyperparameter. Operators replace a step or value by a different one of the same kind and leave the rest of the pipeline in place.",
 ["inputs", "histories", "configurations"], "every search space, every parent and every random choice",
 "tests use one small search space and a few random draws",
 [GP + "operations.py", GP + "mutation.py", GP + "crossover.py", GP + "components/individual.py", GP + "components/primitive_node.py", GA], ["random draws from the search space by output type and hyperparameter", "identity checks on replacement"]),
("C09", "Scores come from held-out data only",
 "The score of a pipeline is computed on rows its fitted model has not seen: each validation fold is predicted by the model trained on the other folds, folds are disjoint and cover the evaluated rows, and a subsample is used for all parts of an evaluation consistently. No target-dependent step is fitted outside the cross-validation.",
 ["inputs", "configurations"], "every data set, metric, pipeline and subsample size",
 "leakage gives plausible scores on every test data set",
 [SK, "gama/utilities/preprocessing.py"], ["cross-validation over the full pipeline with per-fold prediction", "preprocessing before cross-validation does not use the target"]),
("C10", "Predictions, targets and rows stay aligned",
 "Out-of-fold predictions are stored at the positions of the rows they were made for, in the order of the training targets, and stay so whatever index the input had. Rows dropped because their target is missing are dropped from features and targets alike, and stored prediction subsets of different pipelines refer to the same rows.",
 ["inputs", "histories"], "every index, missing-target pattern and fold assignment",
 "tests use frames with default consecutive indices",
 [SK, "gama/data_formatting.py", LIB, EN], ["fold indices used for both data and predictions", "row filtering", "shared sample indices"]),
("C11", "Prediction uses the same preparation as training",
 "Data passed to prediction goes through exactly the encoding fitted during training, with the columns and types seen then, before reaching the model, for arrays, frames and files alike. Every categorical column, whatever its number of values, is encoded by exactly one encoder. Predicted labels are reported in the user's original label values, and prediction without a model of the latest fit is an error.",
 ["inputs", "histories"], "every kind of input, label type and call order",
 "tests predict on a few data sets with one label type each",
 [GA, GC, GR, "gama/utilities/preprocessing.py"], ["shared preparation method for all prediction entry points", "label encoder inverse transform"]),
("C12", "User data and configuration are never modified",
 "Neither fitting, predicting, nor scoring changes the data, search space, or objects the caller passed in: formatting, dropping, and encoding work on copies. Interpreting a search space leaves it reusable.",
 ["inputs", "histories"], "every input type (arrays, frames, series) and every path through formatting",
 "in-place changes are visible only to a caller who looks at his own object afterwards",
 ["gama/data_formatting.py", "gama/utilities/preprocessing.py", "gama/configuration/parser.py", GA, GC], ["copies before in-place operations"]),
("C13", "Higher scores always mean better pipelines, for every metric",
 "Every metric, whether to be maximized or minimized, is used with its own arguments (such as the kind of average) and turned into a score that is higher for better predictions, and all comparisons (selection, elimination, ranking, best model, ensembles) prefer the higher score. Failed evaluations rank below every successful one and with length regularization a shorter pipeline ranks above an equally good longer one.",
 ["inputs", "configurations"], "every metric, every set of scores",
 "tests use one or two metrics and mostly the default direction",
 ["gama/utilities/metrics.py", SK, LIB, EN, BF, GA], ["sign of the metric", "ordering of evaluations", "sort directions"]),
("C14", "Only the requested artifacts remain, and only our own files are removed",
 "After fit, the output directory holds exactly what the storage setting asks for, and cleaning up never deletes anything but logs and the model cache of the run's own output directory. A directory that already contains files is refused before anything is written to it.",
 ["configurations", "histories"], "every storage setting, directory state and call order, including repeated cleanup",
 "tests check two settings on a fresh directory",
 [GA, LIB], ["clean-up mapping by storage setting", "existence and emptiness checks of the output directory"]),
("C15", "With a fixed seed, every random decision follows the seed",
 "When a random state is given both generators used by the search are seeded with it before anything random happens, and no decision of the search or post-processing uses another source of randomness, a freshly seeded generator, or the arbitrary order of a set. Without a random state nothing is seeded.",
 ["inputs", "histories"], "every random decision in the package",
 "one unseeded source makes runs differ only sometimes; tests compare no two runs",
 [GA, GP, EN, LIB, "gama/search_methods/"], ["global seeding in the constructor", "use of the global generators"]),
("C16", "Worker processes never outlive the search",
 "Leaving the evaluation context, normally or by any exception or timeout, stops all workers it started, and queued work is discarded so that none of it is started afterwards. Workers that died are replaced, and none is started after shutdown.",
 ["crash_points", "schedules", "fault_sequences"], "every exit path and every state of the workers at that moment",
 "tests leave the context only after all work is done",
 [AE], ["context manager exit", "stop signal", "worker start"]),
("C17", "The memory limit is enforced by stopping the biggest worker but never the last",
 "Whenever a result is awaited memory use is checked; when the main process and the workers together exceed the limit, the worker using most memory, never the main process, is stopped, and it is replaced if such violations are rare or it was the last worker, so that at least one worker always remains. Without a limit nothing is stopped, and a worker that just died is replaced and never breaks the search.",
 ["schedules", "fault_sequences", "configurations"], "every memory profile of the workers at every check",
 "tests trigger one artificial overflow",
 [AE], ["memory control in the waiting loop"]),
("C18", "The evolutionary search respects its bounds and makes progress",
 "The population never exceeds its configured size, the search stops after exactly the configured number of finished evaluations counted over restarts, every start candidate is submitted once before waiting, and a restart replaces the population. New work is submitted whenever the queue runs low.",
 ["schedules", "histories", "configurations"], "every order of results, every mix of failures, every configuration of size and cap",
 "tests run small searches with fake evaluators",
 [EA, RS], ["main loop of the evolutionary search", "main loop of random search"]),
("C19", "The evaluation library keeps exactly the best models and forgets nothing else",
 "Of the evaluations reported the library keeps full information (model and predictions) for exactly the best ones up to its configured number and drops it from the others, while every evaluation's score, error and identity stays available. The best evaluations are reported in order, and only successful ones are offered for use.",
 ["histories", "inputs"], "every sequence of scores, failures and ties",
 "tests add a few evaluations in increasing order",
 [LIB], ["bounded heap of best evaluations", "stripping and caching of dropped ones"]),
("C20", "The evaluation log has each evaluation on one line under the right columns",
 "Every reported evaluation, successful or failed, adds exactly one line with its own identity, timing, score, pipeline, error, parents and origin in the columns the header announces, and lines are readable back unambiguously. Earlier lines are never altered and an interrupted write cannot corrupt another line.",
 ["histories", "inputs", "crash_points"], "every evaluation outcome and every text occurring in errors and pipelines",
 "tests log a single constructed evaluation",
 ["gama/logging/evaluation_logger.py", AS], ["header and field extraction by the same columns", "append mode"]),
("C21", "Command line options reach the run they describe",
 "Each command line option, in any combination, reaches the setting it documents with the value given, and options not given have their documented default, settings without an option the library's. The search runs on the given file and target with the kind of run asked for or fitting the target, its model and logs are kept, code is exported only when asked for, and a dry run neither searches, writes nor leaves anything behind. Invalid options, files and modes are refused before any search.",
 ["configurations"], "every combination of options",
 "tests run one or two command lines",
 ["gama/utilities/cli.py"], ["argument definitions and their use"]),
("C22", "The search space: every built-in entry is usable and all of it is used",
 "Every algorithm in the shipped search spaces exists in the installed libraries and accepts each hyperparameter listed for it with each of its values, shared hyperparameters resolve to a definition, and score functions fit the task. Classification spaces hold only transformers and classifiers, regression spaces only transformers and regressors. Whichever space is given, the shipped or the user's, the search gets one primitive per algorithm and one terminal per value, and only classifiers without predict_proba are left out, when a metric needs probabilities.",
 ["programs", "configurations"], "every algorithm, hyperparameter and value of the shipped search spaces, and every user-given search space",
 "tests sample a few configurations at random, and invalid ones just count as failed evaluations",
 ["gama/configuration/classification.py", "gama/configuration/regression.py", "gama/configuration/parser.py", GC], ["search space dictionaries", "parser", "default and filtering of the search space"]),
("C23", "Class probabilities keep their meaning from fold to final prediction",
 "Columns of predicted probabilities refer to the classes in the same sorted order everywhere: in validation scores, in the ensemble's weighted average and in the final prediction. A metric that needs probabilities always receives probabilities, others always receive labels, and a metric that takes the possible labels gets every class of the training target exactly once.",
 ["inputs", "configurations"], "every set of labels, metrics and models",
 "tests use balanced data where every fold sees all classes",
 [SK, "gama/utilities/metrics.py", EN, GC], ["probability handling in validation", "metric type", "ensemble averaging"]),
("C24", "Files are read into the same table whatever their format",
 "The target column named by the user, or else the last one, becomes the target and all others, in order, the features; all rows stay, attributes keep their names, and exactly the nominal attributes of an ARFF file become categorical. Separator and header of a csv file, encoding of an ARFF file and other options the caller gives are used. Unsupported file types and unknown target columns are errors rather than silently misread.",
 ["inputs"], "every file, column layout and target choice",
 "tests read three example files",
 ["gama/data_loading.py"], ["loader per extension", "split of features and target"]),
("C25", "The exported script defines the model that was found",
 "The exported code contains the preparation steps followed by the steps of the selected pipeline or all ensemble members with their weights, in the right order and with the chosen hyperparameter values, and imports everything it uses. An existing file is not overwritten when the caller forbids it.",
 ["inputs"], "every model that can be found",
 "tests export a couple of models",
 ["gama/utilities/export.py", EN, BF, GA], ["code generation from pipeline steps", "import collection"]),
("C26", "Separate instances do not influence each other",
 "Creating or running one instance after another leaves the search space, search method, post-processing, metrics, callbacks, log file and results of every other instance unchanged: nothing that one changes is shared through argument defaults, classes, or modules, and settings kept in a class are all set anew by every search.",
 ["histories"], "every sequence of operations on several instances",
 "tests use one instance at a time",
 ["gama/"], ["no mutable defaults, no writes to module or class state, copies of shared configuration"]),
("C27", "Invalid settings are refused before any work starts",
 "Non-positive time limits, impossible numbers of workers, unknown presets and storage settings, unknown metrics, and non-empty output directories raise an error from the constructor, and wrong time limits or numbers of workers leave no directory behind; accepted settings, also those given through GamaClassifier or GamaRegressor, are used as given, and each metric asked for is used in the given order. The maximum evaluation time never exceeds the total time, and defaults derive from it as documented.",
 ["configurations"], "every combination of constructor arguments",
 "tests check a few invalid values",
 [GA, "gama/utilities/metrics.py"], ["checks in the constructor", "metric lookup"]),
("C28", "Hyperparameters the user sets always win over defaults",
 "For search methods and post-processing, a value the user passes (also 0, False or an empty one) is the one in effect; only a setting that was left out or None takes its dynamic default or else the documented static default. Setting defaults for the data never replaces the user's choice, except a maximum number of rows above the size of the data, which cannot be honoured. Every setting reaches the search or ensemble construction under the parameter it is documented to control.",
 ["configurations", "histories"], "every combination of given and omitted settings, for repeated runs",
 "tests check single defaults",
 ["gama/search_methods/base_search.py", EA, AS, "gama/postprocessing/base_post_processing.py", EN], ["pairs of set value and default", "lookup order"]),
("C29", "Selection and elimination follow Pareto dominance",
 "A candidate counts as dominated only when another is better on every objective, ranks and crowding decide tournaments in that order, two parents of a pair are different, and elimination removes an individual that is worst in the Pareto sense. The Pareto front holds exactly the items that no other item is at least as good as on every objective.",
 ["inputs"], "every population and every set of objective values, including ties",
 "tests use a few fixed points",
 [GP + "nsga2.py", GP + "selection.py", "gama/utilities/generic/paretofront.py"], ["dominance comparison", "non-dominated sorting", "Pareto front updates"]),
("C30", "Failed evaluations never stop or pollute the search",
 "After any evaluation that failed or raised, the search continues exactly as after a successful one; only successfully evaluated individuals enter the population or become parents, and offspring are only created when there are enough parents to select from.",
 ["fault_sequences", "schedules"], "every sequence of failures, including all start candidates failing",
 "tests use evaluators that always succeed",
 [EA, RS, AS], ["result handling in the search loops"]),
("C31", "A compiled pipeline is the one its description says",
 "Compiling an individual gives the fixed preprocessing followed by one step per algorithm in data-to-estimator order, each with exactly the hyperparameter values of the individual. The same description always compiles to the same steps.",
 ["inputs"], "every individual of every search space",
 "tests compile a few individuals",
 [SK, GP + "components/individual.py"], ["compiler from individual to steps"]),
("C32", "Ensemble selection, weights and predictions are consistent",
 "The ensemble starts from the best stored pipelines and then repeatedly adds the stored pipeline with which the exact weighted average of validation predictions scores best, up to exactly the configured size. Each selected pipeline counts with exactly the number of times it was selected, through all its fold models, in the weighted average of both validation and final predictions. An ensemble that could be selected can predict, however long the selection took.",
 ["inputs", "histories", "schedules"], "every set of stored models, scores, sizes and durations",
 "tests build one small ensemble",
 [EN], ["greedy selection", "weights", "weighted average", "members collected after selection"]),
("C33", "Successive halving promotes the right candidates",
 "Resources grow by the reduction factor per rung up to the maximum, each rung promotes its best not yet promoted candidates and only the top fraction, results are filed under the rung they were evaluated at, and evaluations on less than the full data are never offered as usable models. The result is the highest rung reached.",
 ["schedules", "histories", "configurations"], "every order of results and every configuration of rungs",
 "tests run one configuration with a fake evaluator",
 [AS], ["promotion rule", "rung bookkeeping", "marking of partial evaluations"]),
("C34", "Reports read logs the way they were written",
 "Every field of the evaluation log is read back from the column it was written to, for every search method's log format, and the phases, timings, and settings shown are those the run logged. Failed evaluations are included with their failure.",
 ["inputs", "histories"], "every log a run can write",
 "tests read a fixed set of stored logs",
 ["gama/logging/GamaReport.py", "gama/logging/evaluation_logger.py", "gama/utilities/generic/timekeeper.py", AS], ["shared separators, column names and log tokens between writer and reader"]),
("C35", "Training data of any accepted form becomes the same table and target",
 "Features given as an array or a frame, and targets given as a vector, column, indicator matrix, series or frame, become a frame and a series of the same rows and values; indicators stand for the class of their highest entry, and of a frame the first column is the target. Rows without a target are ignored, all others are used. Exactly the columns of text, or of at most ten different whole numbers, of an array or csv file become categorical; the types of a frame the user gives are kept. Other kinds of data are refused.",
 ["inputs"], "every form, type and content of training data",
 "tests use a few small data sets in one or two forms",
 ["gama/data_formatting.py", GA, GC], ["conversion of features and target", "inference of categorical columns", "removal of unlabeled rows"]),
("C36", "A search starts from the right candidates, on this fit's data, and keeps finds",
 "Candidates given to fit (of the classifier, the regressor, or from a file) are exactly those the search starts from, and anything that is no pipeline is refused; without them a later fit starts from the result of the earlier one, otherwise from new random pipelines. They are evaluated on this fit's encoded data and target by the configured metrics and length setting. Whatever a search found until it ended, was stopped or interrupted is its result and goes to post-processing with the same data. Algorithms are left out only for data too large for them: nearest neighbours beyond 6 million values, polynomial features beyond 50 columns, and only while models are stored.",
 ["histories", "inputs", "schedules"], "every sequence of fits, start candidates, data sizes, and moment at which the search is stopped",
 "tests do one fit with a fixed start and a search that ends in time",
 [GA, GC, EA, RS, AS], ["choice of start candidates", "evaluation bound to data and metrics", "output of search methods", "exclusion for large data"]),
("C37", "An instance can be fitted again, and only the data of that fit counts",
 "After fit ended, a later fit of the same instance works like the first whatever the storage setting and post-processing: data, encoding, label mapping, fixed steps, time budget and model are made anew; evaluations, sample and stored files of earlier fits are forgotten before the search; directories it writes to are there again; and which algorithms are left out for large data depends on this fit's data only. All that is taken over is the final population, as the start of the search.",
 ["histories"], "every sequence of fits of one instance, over data of different size and kind",
 "tests fit each instance once",
 [GA, GC, LIB], ["state of an instance between fits", "library reset", "cache directories", "exclusion for large data"]),
]

NA = [
("N01", "Fixed seed and one worker reproduce the same result end to end",
 "Two runs with the same seed, data and one worker evaluate the same pipelines and give the same model.",
 ["histories"], "every data set and seed", "depends on wall-clock time limits and third-party randomness", [GA, AE], ["seeding"],
 "which evaluations finish before the wall-clock limit, and the determinism of scikit-learn estimators, are runtime quantities; only the seeding discipline is decided statically (C15)"),
("N02", "Fit returns within the total time budget",
 "A call to fit ends within the configured number of seconds, up to a small margin.",
 ["schedules"], "every data set and machine", "wall-clock behaviour of third-party fits", [GA], ["time keeper"],
 "elapsed wall-clock time of third-party calls (some uninterruptible C code) cannot be bounded from the source; the division and delivery of limits is decided in C02, C04, C05"),
("N03", "Total memory stays below the configured limit",
 "The memory of all processes never exceeds the limit for long.",
 ["schedules"], "every workload", "actual allocation of third-party code", [AE], ["memory control"],
 "resident memory of running estimators is a runtime quantity; the enforcement actions are decided in C17"),
("N04", "Reported scores are numerically correct",
 "The reported score equals the metric computed by the reference implementation on the same predictions.",
 ["inputs"], "every metric and data set", "numerical third-party code", ["gama/utilities/metrics.py"], ["scorers"],
 "numerical equality over library code needs execution; which function is applied to which data is decided in C09, C13, C23"),
("N05", "The exported script, when run, predicts exactly like the model in memory",
 "Fitting the exported pipeline on the same data gives the same predictions.",
 ["inputs"], "every model", "needs execution of generated code", ["gama/utilities/export.py"], ["code generation"],
 "equality of a generated program's behaviour with an in-memory object is not decidable by inspecting the generator alone; structure of the generated code is decided in C25"),
]


def prop(p):
    return {"id": p[0], "title": p[1], "statement": p[2], "quantifier": {"over": p[3], "text": p[4]}, "why_tests_cant": p[5],
            "anchors": {"files": p[6], "mechanism": [{"name": m, "where": p[6][min(i, len(p[6]) - 1)]} for i, m in enumerate(p[7])]}}


def design(claimed):
    """Rewrites the generated part of DESIGN.md."""
    from design import HOW, LIMITS
    out = []
    for p in claimed:
        how, bounds = HOW[p[0]]
        out += [f"### {p[0]} {p[1]}", "", f"*How:* {how}", ""] + ([f"*Bounds and assumptions:* {bounds}", ""] if bounds else []) + [f"*Why tests cannot:* {p[5]}.", "", "Rules:", ""]
        out += [f"- `{n}`: {t}" for n, t, _ in C.RULES[p[0]]] + [""]
    out += ["### Not applicable", ""] + [f"- {p[0]} {p[1]}: {p[8]}." for p in NA] + ["", "## Limits and observations", "", LIMITS.strip(), ""]
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    a, b = "<!-- generated: tools/gen.py -->\n", "<!-- end generated -->\n"
    i, j = text.index(a) + len(a), text.index(b)
    open(path, "w").write(text[:i] + "\n".join(out) + text[j:])


def main():
    claimed = [p for p in P if p[0] in C.RULES]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in claimed + NA:
            assert len(p[1]) <= 80, p[0]
            fh.write(json.dumps(prop(p)) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q vp >/dev/null 2>&1; true", "checks": [], "not_applicable": [
        {"property": p[0], "reason": p[8]} for p in NA],
        "notes": "All checks are static: they parse /repo/gama on every run and never import or run it. tools/mut.py is a self-test on scratch copies, not a check."}
    for p in claimed:
        names = [n for n, _, _ in C.RULES[p[0]]]
        man["checks"].append({
            "property": p[0], "quick_cmd": f"python3 -m vp.check {p[0]}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 -m vp.check {p[0]}",
            "technique": "value-flow and path-condition analysis (abstract interpretation of the syntax tree): rules " + ", ".join(names),
            "level": "other",
            "level_note": "Decided on all paths of the analysed functions from the current source, without running it. Sound for the obligations "
                          "listed in the evidence under the stated assumptions (third-party behaviour as documented, no monkey-patching); an obligation "
                          "the analysis cannot follow is listed as undecided, never as a violation."})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    design(claimed)
    print(len(claimed), "claimed;", [p[0] for p in P if p[0] not in C.RULES], "pending")


main()
