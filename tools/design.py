"""Per property: what kind of argument decides it, and what stays outside of it. Used by gen.py for DESIGN.md."""
VF = "value flow"
FC = "finite case enumeration by constant propagation"
HOW = {
"C01": ("Every exception edge out of the guarded region is followed to the record that is built; the fields of the record are compared with the failure record. Oracle: the definition of a failed evaluation in the property.", "Exceptions are any subclass of Exception raised by any call in the region; death of the whole worker process is C16/C17."),
"C02": ("Every `except`/`finally`/context manager that can catch TimeoutException, KeyboardInterrupt or stopit's timeouts on a path of fit is enumerated over the call graph; each must re-raise or be the designated end of the phase.", "The asynchronous exception may arrive at any statement, so every handler around any statement counts."),
"C03": ("Counting of observer calls per finished evaluation over all paths of the result loop, and identity of the value passed.", "What a user's callback does is arbitrary; the rules show only that it cannot stop the others."),
"C04": ("Linear normal form of the limit passed to the evaluation, `min` of configured limit and remaining time.", "Elapsed time itself is a runtime quantity (N02)."),
"C05": ("Linear normal form of the limits, with the time keeper's and stopwatch's methods inlined.", "Elapsed time itself is a runtime quantity (N02)."),
"C06": ("Each variation operator: interval reasoning on the length of the result from the length of the argument and the guards on the path; every attempt of mate/create is covered because the loop is summarised with the exit condition.", "Length counts primitives along the data chain, as the code's own max_length does."),
"C07": ("Alias analysis: stores in the operators reach only objects created by a deep copy on every path.", ""),
"C08": ("Every primitive and terminal that enters a tree must flow from the primitive set under the key of the slot it fills.", ""),
"C09": ("Index flow in the cross validation loop: the train and test indices of a fold come from the two sides of one split; scoring and predictions use only the test side.", "scikit-learn's splitters are assumed to return disjoint index sets."),
"C10": ("Permutation/selection flow: each operation applied to x is applied to y with the same selector, by position.", ""),
"C11": ("The transformations applied on the way into fit and into predict are compared as sequences, and the state each uses must be the one stored by the same fit.", ""),
"C12": ("Effect analysis with points-to of the caller's objects: in-place operations (methods, item stores, `inplace=`) on anything reachable from an argument.", "In-place changes inside third-party calls are known for pandas/numpy methods only."),
"C13": ("Sign flow from scorer to fitness, library order, ensemble order and Pareto order. Every comparison and sort is checked for direction.", ""),
"C14": ("All file system effects reachable from constructor, fit and clean-up, with their path built symbolically and case split on `store`.", ""),
"C15": ("Enumeration of every source of randomness in the package, and of iteration over sets that feeds a decision.", "Wall-clock dependence is N01."),
"C16": ("Typestate of the worker processes (started, asked to stop, joined or terminated) over all exits of the `with` block.", "The operating system is assumed to deliver kill."),
"C17": ("Path conditions of the kill: only when usage exceeds the limit, the maximum by memory, never the last.", "Actual memory use is N03."),
"C18": ("Loop analysis of the search methods: bounds on population, termination conditions, dispatch per result.", ""),
"C19": ("Library operations: conditions for keeping predictions and models, key uniqueness, order.", ""),
"C20": ("Column list and value list of each logger are paired symbolically, with escaping on every value.", ""),
"C21": (FC + ": the argparse declarations are read, each option given or not given is propagated through the command's code.", "Quick: each option alone and pairs; thorough: every combination."),
"C22": (FC + ": the configuration dictionaries are propagated against the source of the installed libraries (signatures, class hierarchy, `_parameter_constraints`); the parser is propagated on synthetic spaces containing every kind of entry.", "Value usable means: accepted by the algorithm's own declared validation and not in the list of documented always-failing combinations. Whether a fit succeeds on given data is runtime."),
"C23": ("Flow of predicted columns from predict_proba to metric, average and decoder; which kind of prediction is requested under which metric.", ""),
"C24": (FC + " over file name, target column and options; the value read is symbolic.", "The parsers of pandas and arff are assumed correct."),
"C25": ("The code generator's output is built as a symbolic string for a symbolic pipeline; its structure is compared with the compiled pipeline's.", "Behaviour of the generated code when run is N05."),
"C26": ("Escape analysis: stores into module-level, class-level and default-argument objects over the whole package.", ""),
"C27": (FC + " of settings (each invalid kind, boundary and valid values) through the constructor.", ""),
"C28": ("Flow of each documented hyperparameter from the user's argument to its use; an override happens only where the value is the sentinel for unset.", ""),
"C29": ("The selection code's comparisons and front construction compared with the definition of dominance.", ""),
"C30": ("Conditions under which a result enters the population, and behaviour of the loops when none does.", ""),
"C31": ("Correspondence of primitive tree, step list and hyperparameters in the compiler, and of the text form.", ""),
"C32": ("Recurrences of weights and averages in greedy selection, matched symbolically.", ""),
"C33": ("Conditions and slices of promotion, symbolic in reduction factor and rung.", ""),
"C35": (FC + " over an abstract domain of tables: form (array, series, frame), number of columns, kind of content, missing values; every combination is propagated through the formatting code, and per column kind through the inference of categories.", "The semantics of the pandas and numpy calls used are written into the abstract domain; other calls leave a case undecided."),
"C36": ("Value flow of start candidates, data, metrics and result through fit and the search phase, with case enumeration over given/empty/no candidates, first/later fit, data sizes around the limits; alias analysis of the list in which each search collects results.", "What a stopped search has found by then is a runtime quantity; the rules show that all of it is kept."),
"C37": ("Forward flow from the state an instance has before fit: every attribute of the instance and of the library which the search or post-processing can read has to be overwritten, emptied or rebuilt from this fit's arguments before the search call; directories in which files are opened have a creating call before them.", "Whether fits of third-party estimators leave state behind is outside."),
"C34": ("Tokens, separators and columns of writers and readers are propagated through each other: the reader is run on symbolic log lines as the writer builds them.", "Custom search spaces and unusual directory names are outside (see limits)."),
}
LIMITS = """
Behaviour seen while reading which no property claims, or which was left as it is:

- Killing a worker for memory loses its future: the search waits for one evaluation less. Nothing hangs, the slot is not reused until a worker is restarted.
- `Gama.score` gives the metric unsigned; with `roc_auc` it raises on binary data; `average_precision` gets labels.
- `build_fit_ensemble` swallows `Exception`; `expand_ensemble` has `best_addition` unbound if every score is NaN.
- `predict` on a table without rows fails. Declared nominal values of ARFF that do not occur are not kept; the readers of header metadata are naive about quotes.
- `export_script` needs the `black` executable; string hyperparameters with quotes, and infinite values, are not escaped in exports (none are in the shipped spaces).
- `GamaReport` does not know custom spaces, and directories with `,` or `=` in the name.
- `param_check` functions in search spaces are never used: invalid combinations fail in evaluation (C01 and C30 make this harmless).
- The command line decides between classification and regression by the target's dtype and distinct values: a string target with many distinct values is refused or read as regression as documented there.
"""
