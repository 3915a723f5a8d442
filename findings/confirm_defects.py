"""Shows each genuine defect against the real code (not a check; run by hand).

usage: /opt/venv/bin/python confirm_defects.py [name ...]   (cwd: a checkout of gama)
Every function returns True when the behaviour is right, and raises / returns False
when the defect is present.
"""
import os, sys, tempfile, logging, random, types, functools, time
sys.path.insert(0, os.getcwd())
os.chdir(tempfile.mkdtemp(prefix="vp_confirm_"))
import warnings; warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from gama.configuration.classification import clf_config
ORIG = {k: (set(v) if isinstance(v, dict) else v) for k, v in clf_config.items()}
from gama.configuration.parser import pset_from_config, merge_configurations
from gama.configuration.regression import reg_config
from gama.genetic_programming.components import Individual, PrimitiveNode, Primitive, Terminal
from gama.genetic_programming.compilers.scikitlearn import evaluate_pipeline, evaluate_individual, compile_individual
from gama.utilities.metrics import scoring_to_metric, Metric
from sklearn.pipeline import Pipeline
from sklearn.naive_bayes import GaussianNB
from sklearn.tree import DecisionTreeClassifier
from sklearn.preprocessing import StandardScaler, MinMaxScaler, Normalizer
from sklearn.datasets import load_iris

IX, IY = load_iris(return_X_y=True)
IX, IY = pd.DataFrame(IX), pd.Series(IY)
TESTS = {}
def t(f): TESTS[f.__name__] = f; return f

class BadPredict(GaussianNB):
    calls = 0
    def predict(self, X):
        BadPredict.calls += 1
        if BadPredict.calls > 5 + 2: raise RuntimeError("late failure")
        return super().predict(X)

@t
def D1_late_failure_keeps_scores():
    BadPredict.calls = 0
    p, s, e, err = evaluate_pipeline(Pipeline([("0", BadPredict())]), IX, IY, 60, scoring_to_metric("accuracy"))
    assert err is not None
    return p is None and s == (float("-inf"),) and e is None

@t
def D1b_subsample_trains_on_test_rows():
    seen = []
    class Rec(GaussianNB):
        def fit(self, X, y):
            seen.append(set(X.index)); return super().fit(X, y)
    import sklearn.model_selection as ms
    evaluate_pipeline(Pipeline([("0", Rec())]), IX, IY, 60, scoring_to_metric("accuracy"), subsample=30)
    tests = [set(te) for _, te in ms.StratifiedKFold(5).split(IX, IY)]
    return all(not (a & b) for a, b in zip(seen, tests))

PS, _ = pset_from_config({GaussianNB: {}, StandardScaler: {}, MinMaxScaler: {}, Normalizer: {},
                          DecisionTreeClassifier: {"max_depth": [1, 2, 3]}})
def ind(s): return Individual.from_string(s, PS, compile_individual)

@t
def D2_replace_terminal_out_of_range():
    try:
        ind("DecisionTreeClassifier(data, DecisionTreeClassifier.max_depth=1)").replace_terminal(1, PS["DecisionTreeClassifier.max_depth"][0])
    except ValueError:
        return True
    return False

@t
def D3_mate_exceeds_length():
    from gama.genetic_programming.operator_set import OperatorSet
    from gama.genetic_programming.crossover import random_crossover
    ops = OperatorSet(None, functools.partial(random_crossover, max_length=3), None, None, None, None, None, completed_evaluations={})
    random.seed(0)
    a = ind("GaussianNB(StandardScaler(MinMaxScaler(data)))"); b = ind("GaussianNB(MinMaxScaler(Normalizer(data)))")
    return all(len(ops.mate(a, b).primitives) <= 3 for _ in range(100))

@t
def D5_no_mutation_available():
    from gama.genetic_programming.mutation import random_valid_mutation_in_place
    random_valid_mutation_in_place(ind("GaussianNB(data)"), PS, max_length=1)
    return True

@t
def D5b_shrink_mutation_has_no_name():
    from gama.genetic_programming.operator_set import OperatorSet
    from gama.genetic_programming.mutation import random_valid_mutation_in_place
    ops = OperatorSet(functools.partial(random_valid_mutation_in_place, primitive_set=PS, max_length=1), None, None, None, None, None, None, completed_evaluations={})
    return ops.mutate(ind("GaussianNB(StandardScaler(MinMaxScaler(data)))")).meta["origin"] == "mut_shrink"

@t
def D6_ensemble_double_sample():
    from gama.postprocessing.ensemble import EnsembleClassifier
    from gama.utilities.evaluation_library import EvaluationLibrary
    lib = EvaluationLibrary(m=5, n=None)
    y = pd.Series([0, 1] * 100)
    e = EnsembleClassifier(Metric("neg_log_loss"), y, evaluation_library=lib, downsample_to=50)
    return len(e._y) == 50 and (np.argmax(np.asarray(e._y), axis=1) == y.iloc[e._prediction_sample].to_numpy()).all()

def clf(**kw):
    from gama import GamaClassifier
    kw = {**dict(max_total_time=30, n_jobs=1, store="nothing", search_space={GaussianNB: {}, StandardScaler: {}, MinMaxScaler: {}, Normalizer: {}, DecisionTreeClassifier: {"max_depth": [1, 2, 3]}}), **kw}
    return GamaClassifier(**kw)

@t
def D7_fit_returns_self():
    from gama.search_methods import RandomSearch, AsyncEA
    g = clf(search=AsyncEA(max_n_evaluations=10))
    return g.fit(IX, IY) is g

@t
def D9_nan_string_target_is_class():
    from gama.search_methods import AsyncEA
    y = pd.Series(np.array(["a", "b", "c"], dtype=object)[IY.to_numpy()]); y.iloc[::10] = np.nan
    g = clf(search=AsyncEA(max_n_evaluations=10))
    g.fit(IX, y)
    return len(g._y) == 135 and len(g._label_encoder.classes_) == 3

@t
def D13_last_instance_wins():
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    from gama.search_methods import AsyncEA
    seen = []
    class S(AsyncEA):
        def search(self, ops, start_candidates):
            seen.append(AsyncEvaluator()._n_jobs); return super().search(ops, start_candidates)
    a = clf(search=S(max_n_evaluations=5), n_jobs=1); b = clf(search=S(max_n_evaluations=5), n_jobs=3)
    a.fit(IX, IY); b.cleanup("all")
    return seen == [1]

@t
def D14_invalid_store_rejected():
    try: clf(store="lgos")
    except ValueError: return True
    return False

@t
def D15_zero_eval_time():
    return clf(max_total_time=4)._max_eval_time > 0

@t
def D16_failures_abort_search():
    from gama.search_methods import AsyncEA
    g = clf(search=AsyncEA(max_n_evaluations=10))
    g.fit(IX, IY, warm_start=[ind("GaussianNB(data)")])
    return True

@t
def D17_refit():
    from gama.search_methods import AsyncEA
    from gama.postprocessing import NoPostProcessing
    g = clf(search=AsyncEA(max_n_evaluations=10), store="all")
    g.fit(IX, IY); g.fit(IX, IY)
    return True

@t
def D17b_warm_start_mutated():
    from gama.search_methods import AsynchronousSuccessiveHalving
    g = clf(search=AsynchronousSuccessiveHalving(), max_total_time=12)
    w = [ind("GaussianNB(data)"), ind("GaussianNB(StandardScaler(data))")]; n = len(w)
    g.fit(IX, IY, warm_start=w)
    return len(w) == n

@t
def D18_asha_masks_errors():
    from gama.search_methods.asha import asha
    class Boom(Exception): pass
    ops = types.SimpleNamespace(evaluate=None, individual=lambda: (_ for _ in ()).throw(Boom()))
    try: asha(ops, [])
    except Boom: return True
    except BaseException as e: print("   got", repr(e)); return False
    return False

@t
def D21_unaligned_index():
    from gama.data_formatting import format_x_y
    x = pd.DataFrame({"a": [0., 1, 2, 3]}, index=[3, 2, 1, 0]); y = np.array([0, np.nan, 2, 3.])
    x2, y2 = format_x_y(x, y)
    return list(x2["a"]) == [0, 2, 3] and list(y2) == [0, 2, 3]

@t
def D23_merge_mutates():
    merge_configurations(clf_config, reg_config)
    return all(set(v) == ORIG[k] for k, v in clf_config.items() if isinstance(v, dict))

@t
def D25_activity_reset_on_error():
    from gama.utilities.generic.timekeeper import TimeKeeper
    tk = TimeKeeper(10)
    try:
        with tk.start_activity("x"): raise KeyError
    except KeyError: pass
    return tk.current_activity is None

@t
def D27_cli_separator_and_case():
    import gama.utilities.cli as cli
    IX.assign(t=IY).rename(columns=str).to_csv("Data.csv", index=False, sep=",")
    cli.main("Data.csv -sep , --mode classification -dry")
    return True

@t
def D27b_upper_extension():
    from gama.data_loading import file_to_pandas
    IX.rename(columns=str).to_csv("d.CSV", index=False)
    return len(file_to_pandas("d.CSV")) == 150

@t
def D29_log_rows():
    from gama.logging.evaluation_logger import EvaluationLogger
    from gama.utilities.evaluation_library import Evaluation
    from gama.genetic_programming.components import Fitness
    import datetime
    l = EvaluationLogger("ev.log"); i = ind("GaussianNB(data)")
    i.fitness = Fitness((0.,), datetime.datetime.now(), 1, 1)
    l.log_evaluation(Evaluation(i, error="ValueError: a;b\nsecond line")); l.log_evaluation(Evaluation(i))
    d = pd.read_csv("ev.log", sep=";"); return len(d) == 2 and d.error[0] == "ValueError: a;b\nsecond line"

@t
def D35_rank():
    from gama.genetic_programming.nsga2 import NSGAMeta, fast_non_dominated_sort
    P = [NSGAMeta(p, [lambda x: x[0], lambda x: x[1]]) for p in [(3, 3), (2, 2), (1, 1)]]
    fast_non_dominated_sort(P); return [p.rank for p in P] == [1, 2, 3]

@t
def D36_single_objective():
    from gama.search_methods import AsyncEA
    g = clf(search=AsyncEA(max_n_evaluations=80), regularize_length=False)
    g.fit(IX, IY); return True

@t
def D40_pickle_changes_ensemble():
    import pickle
    from gama.postprocessing.ensemble import EnsembleClassifier
    from gama.utilities.evaluation_library import EvaluationLibrary
    e = EnsembleClassifier(Metric("accuracy"), pd.Series([0, 1] * 10), evaluation_library=EvaluationLibrary(m=5, n=None, cache="c2"))
    e.__getstate__()
    return e._models is not None

@t
def D41_single_core():
    import multiprocessing
    old = multiprocessing.cpu_count; multiprocessing.cpu_count = lambda: 1
    try: clf(n_jobs=None); return True
    finally: multiprocessing.cpu_count = old

if __name__ == "__main__":
    names = sys.argv[1:] or list(TESTS)
    for n in names:
        try: r = TESTS[n]()
        except BaseException as e: r = f"{type(e).__name__}: {str(e)[:90]}"
        print(f"{'ok    ' if r is True else 'DEFECT'} {n} {'' if r is True else r}", flush=True)
