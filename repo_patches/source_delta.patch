From ed3101a26238e6cc24848bded8d7ce4d7f0731b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 01/45] fix: evaluations that fail or time out after scoring
 report failed results

---
 gama/genetic_programming/compilers/scikitlearn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 312ee2e..ff38102 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -80,7 +80,8 @@ def evaluate_pipeline(
 
     prediction, estimators = None, None
     # default score for e.g. timeout or failure
-    scores = tuple([float("-inf")] * len(metrics))
+    failed_scores = tuple([float("-inf")] * len(metrics))
+    scores = failed_scores
     is_classification = is_classifier(pipeline)
 
     with stopit.ThreadingTimeout(timeout) as c_mgr:
@@ -144,7 +145,7 @@ def evaluate_pipeline(
         except KeyboardInterrupt:
             raise
         except Exception as e:
-            return prediction, scores, estimators, e
+            return None, failed_scores, None, e
 
     if c_mgr.state == c_mgr.INTERRUPTED:
         # A TimeoutException was raised, but not by the context manager.
@@ -154,7 +155,7 @@ def evaluate_pipeline(
     return (
         (prediction, tuple(scores), estimators, None)
         if c_mgr
-        else (prediction, scores, estimators, stopit.TimeoutException())
+        else (None, failed_scores, None, stopit.TimeoutException())
     )
 
 
-- 
2.43.0


From 4325d452222b4a71cb8aef57e2beb38193ace1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 02/45] fix: subsampled cross-validation selects training rows
 from the training fold

---
 gama/genetic_programming/compilers/scikitlearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index ff38102..82b02e7 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -106,9 +106,9 @@ def evaluate_pipeline(
                         sampler = ShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
                         )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train[train]
+                    full_train_x, full_train_y = x.iloc[train, :], y_train.iloc[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((subsample_idx, test))
+                    new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From 62390dd4062e4d90107da09f2d4948e00aacfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 03/45] fix: replace_terminal rejects the first position past
 the last terminal

---
 gama/genetic_programming/components/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/components/individual.py b/gama/genetic_programming/components/individual.py
index 83f161f..1ebd5fe 100644
--- a/gama/genetic_programming/components/individual.py
+++ b/gama/genetic_programming/components/individual.py
@@ -99,7 +99,7 @@ class Individual:
                 return
             else:
                 scan_position += len(primitive._terminals)
-        if scan_position < position:
+        if scan_position <= position:
             raise ValueError(
                 f"Position {position} is out of range with {scan_position} terminals."
             )
-- 
2.43.0


From 1088dc8cb1f38c1926f5b302b44998209f1b873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 04/45] fix: mate returns the offspring for which the maximum
 length is guaranteed

---
 gama/genetic_programming/operator_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 995f7c1..00cd4b6 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -62,7 +62,9 @@ class OperatorSet:
     def mate(self, ind1: Individual, ind2: Individual, *args, **kwargs) -> Individual:
         def mate_with_log():
             new_individual1, new_individual2 = ind1.copy_as_new(), ind2.copy_as_new()
-            self._mate(new_individual1, new_individual2, *args, **kwargs)
+            new_individual1, new_individual2 = self._mate(
+                new_individual1, new_individual2, *args, **kwargs
+            )
             new_individual1.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
             return new_individual1
 
-- 
2.43.0


From 03ea9aadfdf85a47910caca76d619b1734e8d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 05/45] fix: offer replacement mutations when a single node can
 be replaced

---
 gama/genetic_programming/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index ad0457c..0c6bcea 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -153,7 +153,7 @@ def random_valid_mutation_in_place(
         replaceable_primitives = filter(
             lambda p: len(primitive_set[p._primitive.output]) > 1, individual.primitives
         )
-        if len(list(replaceable_primitives)) > 1:
+        if len(list(replaceable_primitives)) > 0:
             available_mutations.append(mut_replace_primitive)
 
         if max_length is None or n_primitives < max_length:
@@ -164,7 +164,7 @@ def random_valid_mutation_in_place(
         replaceable_terminals = filter(
             lambda t: len(primitive_set[t.identifier]) > 1, individual.terminals
         )
-        if len(list(replaceable_terminals)) > 1:
+        if len(list(replaceable_terminals)) > 0:
             available_mutations.append(mut_replace_terminal)
 
     mut_fn = random.choice(available_mutations)
-- 
2.43.0


From 1b88fa23c0f55e719fca58dd3192bf5c37dfade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 06/45] fix: record the origin of individuals that had to be
 shrunk

---
 gama/genetic_programming/operator_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 00cd4b6..c094d12 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -74,6 +74,7 @@ class OperatorSet:
         def mutate_with_log():
             new_individual = ind.copy_as_new()
             mutator = self._mutate(new_individual, *args, **kwargs)
+            mutator = getattr(mutator, "func", mutator)  # unwrap functools.partial
             new_individual.meta = dict(parents=[ind._id], origin=mutator.__name__)
             return new_individual
 
-- 
2.43.0


From f89247650ba25b3945247c6b7c3e20f9ab1571d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 07/45] fix: don't sample the ensemble's validation targets
 twice

---
 gama/postprocessing/ensemble.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index ef18e58..aca1f5a 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -423,8 +423,6 @@ class EnsembleClassifier(Ensemble):
             self._y = self._one_hot_encoder.transform(
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
-            if self._prediction_sample is not None:
-                self._y = self._y[self._prediction_sample]
         else:
 
             def one_hot_encode_predictions(predictions):
-- 
2.43.0


From e8ef43239ff1f249acc6b5bf502aef9a472d9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 08/45] fix: pickling an ensemble leaves the ensemble itself
 intact

---
 gama/postprocessing/ensemble.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index aca1f5a..e3db09b 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -367,19 +367,20 @@ class Ensemble(object):
         return _str_
 
     def __getstate__(self):
+        state = self.__dict__.copy()
         if self._shrink_on_pickle:
             log.info(
                 "Shrinking before pickle because shrink_on_pickle is True."
                 "Removing anything that is not needed for predict-functionality."
                 "Functionality to expand ensemble after unpickle is not available."
             )
-            self._models = None
-            self._model_library = None
             # self._y_true can not be removed as it is needed to ensure proper
             # dimensionality of predictions.
             # Alternatively, one could just save the number of classes instead.
+            state["_models"] = None
+            state["_model_library"] = None
 
-        return self.__dict__.copy()
+        return state
 
 
 def fit_and_weight(args):
-- 
2.43.0


From 5d7ab7ad62f53e00bcf0172c3b5f0ee1bd3f669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 09/45] fix: GamaClassifier.fit returns the fitted instance as
 documented

---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 5ae2749..d29a20d 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -139,7 +139,7 @@ class GamaClassifier(Gama):
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
                 m.scorer._kwargs.update({"labels": y})
 
-        super().fit(x, y, *args, **kwargs)
+        return super().fit(x, y, *args, **kwargs)
 
     def _encode_labels(self, y):
         self._label_encoder = LabelEncoder().fit(y)
-- 
2.43.0


From 811ee24bf94674f43b4cfa44e5d307fcd3b1fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 10/45] fix: rows without a class label are ignored for string
 targets too

---
 gama/GamaClassifier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index d29a20d..e252b32 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -7,6 +7,7 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
+from gama.data_formatting import format_x_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
@@ -125,11 +126,12 @@ class GamaClassifier(Gama):
 
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
-        y_ = y.squeeze() if isinstance(y, pd.DataFrame) else y
-        self._label_encoder = LabelEncoder().fit(y_)
-        if any(isinstance(yi, str) for yi in y_):
+        # Unlabeled rows are removed first, or NaN is encoded as one of the classes.
+        x, y = format_x_y(x, y)
+        self._label_encoder = LabelEncoder().fit(y)
+        if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-            y = self._label_encoder.transform(y_)
+            y = pd.Series(self._label_encoder.transform(y), index=y.index)
         self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
-- 
2.43.0


From 268fc75a4e0b90c28c09edc9d24e689c235044b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 11/45] fix: use the instance's own n_jobs, memory limit and
 log file during search

---
 gama/gama.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index c06cbcb..5e6fb4a 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -246,15 +246,10 @@ class Gama(ABC):
             self.cleanup("all")
             raise ValueError(err)
 
-        setattr(
-            AsyncEvaluator,
-            "__init__",
-            partialmethod(
-                AsyncEvaluator.__init__,
-                n_workers=n_jobs,
-                memory_limit_mb=max_memory_mb,
-                logfile=os.path.join(self.output_directory, "memory.log"),
-            ),
+        self._evaluator_configuration = dict(
+            n_workers=n_jobs,
+            memory_limit_mb=max_memory_mb,
+            logfile=os.path.join(self.output_directory, "memory.log"),
         )
 
         if max_eval_time is None:
@@ -641,6 +636,11 @@ class Gama(ABC):
             metrics=self._metrics,
         )
         AsyncEvaluator.defaults = dict(evaluate_pipeline=evaluate_pipeline)
+        setattr(
+            AsyncEvaluator,
+            "__init__",
+            partialmethod(AsyncEvaluator.__init__, **self._evaluator_configuration),
+        )
 
         self._operator_set.evaluate = partial(
             gama.genetic_programming.compilers.scikitlearn.evaluate_individual,
-- 
2.43.0


From 90ac96ab027d020ac2dd9ce8c8fa874b62a15464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 12/45] fix: default n_jobs is valid on single core machines

---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 5e6fb4a..cbe4c7a 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -229,7 +229,7 @@ class Gama(ABC):
         log.info(f"INIT:{self.__class__.__name__}({arguments})")
 
         if n_jobs is None:
-            n_jobs = multiprocessing.cpu_count() // 2
+            n_jobs = max(1, multiprocessing.cpu_count() // 2)
             log.debug("n_jobs defaulted to %d.", n_jobs)
         elif n_jobs == -1:
             n_jobs = multiprocessing.cpu_count()
-- 
2.43.0


From 4ade81bbd91b6c77cf04e09e8a430046b5ce8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 13/45] fix: default max_eval_time is positive for short time
 budgets

---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index cbe4c7a..b695238 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -253,7 +253,7 @@ class Gama(ABC):
         )
 
         if max_eval_time is None:
-            max_eval_time = round(0.1 * max_total_time)
+            max_eval_time = max(1, round(0.1 * max_total_time))
         if max_eval_time > max_total_time:
             log.warning(
                 f"max_eval_time ({max_eval_time}) > max_total_time ({max_total_time}) "
-- 
2.43.0


From 06c2d57cb7ac02aecb1cb6858ffc8598720eaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 14/45] fix: reject unknown values for store before the search
 starts

---
 gama/gama.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index b695238..5633ea2 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -187,6 +187,8 @@ class Gama(ABC):
             )
             search_space = config
 
+        if store not in {"nothing", "models", "logs", "all"}:
+            raise ValueError(f"Unknown value for {store=}")
         if search is None:
             search = AsyncEA()
         if post_processing is None:
-- 
2.43.0


From eecefc1775bc1977c3791052d85e34b23e01cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 15/45] fix: start search from a copy of the start candidates

---
 gama/gama.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 5633ea2..4c347a7 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -623,9 +623,9 @@ class Gama(ABC):
         if warm_start:
             if not all(isinstance(i, Individual) for i in warm_start):
                 raise TypeError("`warm_start` must be a list of Individual.")
-            pop = warm_start
+            pop = list(warm_start)
         elif warm_start is None and len(self._final_pop) > 0:
-            pop = self._final_pop
+            pop = list(self._final_pop)
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
-- 
2.43.0


From 5a686bf49cd37db28a9bb37f98ae9f2400a271cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 16/45] fix: random search does not report individuals of a
 previous search

---
 gama/search_methods/random_search.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/search_methods/random_search.py b/gama/search_methods/random_search.py
index ddf5ff6..0cd1915 100644
--- a/gama/search_methods/random_search.py
+++ b/gama/search_methods/random_search.py
@@ -25,6 +25,7 @@ class RandomSearch(BaseSearch):
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
     ) -> None:
+        self.output = []
         random_search(operations, self.output, start_candidates)
 
 
-- 
2.43.0


From a451ee61f97795d448dab79dfe610a3326cb36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 17/45] fix: AsyncEA survives failing evaluations that leave
 too few parents

---
 gama/search_methods/async_ea.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/async_ea.py b/gama/search_methods/async_ea.py
index b7d6bd6..ca240d4 100644
--- a/gama/search_methods/async_ea.py
+++ b/gama/search_methods/async_ea.py
@@ -139,7 +139,11 @@ def async_ea(
                     # Increasing the number decreases the risk of lost compute time,
                     # but also increases information lag. An offspring created too
                     # early might miss out on a better parent.
-                    new_individual = ops.create(current_population, 1)[0]
+                    if len(current_population) < 3:
+                        # Too few successful evaluations to select parents from.
+                        new_individual = ops.individual()
+                    else:
+                        new_individual = ops.create(current_population, 1)[0]
                     async_.submit(ops.evaluate, new_individual)
 
                 should_restart = restart_callback is not None and restart_callback()
-- 
2.43.0


From c7f8ca761f29b57994e9de3d8c8f776ad2ca4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 18/45] fix: ASHA does not swallow or mask exceptions raised
 during search

---
 gama/search_methods/asha.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 66ceb83..e798723 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -194,17 +194,16 @@ def asha(
                     rung_individuals[rung].append((loss, individual))
                 start_new_job()
 
-            highest_rung_reached = max(rungs)
     except stopit.TimeoutException:
         log.info("ASHA ended due to timeout.")
-        reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
-        highest_rung_reached = max(reached_rungs)
-        if highest_rung_reached != max(rungs):
-            raise RuntimeWarning("Highest rung not reached.")
-    finally:
-        for rung, individuals in rung_individuals.items():
-            log.info(f"[{len(individuals)}] {rung}")
-        return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
+
+    for rung, individuals in rung_individuals.items():
+        log.info(f"[{len(individuals)}] {rung}")
+    reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
+    highest_rung_reached = max(reached_rungs, default=max_rung)
+    if highest_rung_reached != max_rung:
+        log.warning("Highest rung not reached.")
+    return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
 
 
 def evaluate_on_rung(individual, rung, max_rung, evaluate_individual, *args, **kwargs):
-- 
2.43.0


From 9bfcf33e307b887622a7d11c02d1aa0d5e3e6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 19/45] fix: remove unlabeled rows by position, not by index
 label

---
 gama/data_formatting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 62628d4..b214653 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -70,7 +70,9 @@ def remove_unlabeled_rows(
             f"Target vector has been found to contain {sum(unlabeled)} NaN-labels, "
             f"these rows will be ignored."
         )
-        x, y = x.loc[~unlabeled], y.loc[~unlabeled]
+        # x and y match by position, their indices need not.
+        labeled = ~unlabeled.to_numpy()
+        x, y = x.loc[labeled], y.loc[labeled]
     return x, y
 
 
-- 
2.43.0


From df35b096a2386133bf0c6d86ebfa1d41207065c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 20/45] fix: merging configurations leaves both input
 configurations unchanged

---
 gama/configuration/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index 705ec26..e7a0508 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -109,7 +109,10 @@ def pset_from_config(
 def merge_configurations(c1: Dict, c2: Dict) -> Dict:
     """Takes two configurations and merges them together."""
     # Should refactor out 6 indentation levels
-    merged: Dict[Any, Any] = defaultdict(lambda: None, c1)
+    merged: Dict[Any, Any] = defaultdict(
+        lambda: None,
+        {k: dict(v) if isinstance(v, dict) else v for k, v in c1.items()},
+    )
     for algorithm, hparams2 in c2.items():
         if algorithm not in merged:
             merged[algorithm] = hparams2
-- 
2.43.0


From 32ff3943d98091e02b216ecdaab3a889772b417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 21/45] fix: an activity that raises is no longer the current
 activity

---
 gama/utilities/generic/timekeeper.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gama/utilities/generic/timekeeper.py b/gama/utilities/generic/timekeeper.py
index 7253c8b..6a78fe4 100644
--- a/gama/utilities/generic/timekeeper.py
+++ b/gama/utilities/generic/timekeeper.py
@@ -114,9 +114,11 @@ class TimeKeeper:
         act = f"{activity} {','.join(map(str, activity_meta))}"
         log.info(f"START: {act}")
 
-        with Stopwatch() as sw:
-            self.current_activity = Activity(activity, sw, time_limit)
-            self.activities.append(self.current_activity)
-            yield sw
-        self.current_activity = None
+        try:
+            with Stopwatch() as sw:
+                self.current_activity = Activity(activity, sw, time_limit)
+                self.activities.append(self.current_activity)
+                yield sw
+        finally:
+            self.current_activity = None
         log.info(f"STOP: {act} after {sw.elapsed_time:.4f}s.")
-- 
2.43.0


From a9dc2e1fa3cec02d7a6ec8a5cce539092015100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 22/45] fix: the command line loads the file it was given, with
 the given separator

---
 gama/data_loading.py  | 4 ++--
 gama/utilities/cli.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 246e867..3833d1f 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -117,9 +117,9 @@ def file_to_pandas(
     -------
     pd.DataFrame
     """
-    if file_path.endswith(".arff"):
+    if file_path.lower().endswith(".arff"):
         data = arff_to_pandas(file_path, encoding, **kwargs)
-    elif file_path.endswith(".csv"):
+    elif file_path.lower().endswith(".csv"):
         data = csv_to_pandas(file_path, **kwargs)
     else:
         raise ValueError("Only csv and arff files supported.")
diff --git a/gama/utilities/cli.py b/gama/utilities/cli.py
index 9612a62..36ec606 100644
--- a/gama/utilities/cli.py
+++ b/gama/utilities/cli.py
@@ -138,17 +138,17 @@ def main(command: Union[str, List[str]] = ""):
     args = parser.parse_args(command) if command else parser.parse_args()
 
     print("CLI: Processing input")
-    if not os.path.exists(args.input_file.lower()):
+    if not os.path.exists(args.input_file):
         raise FileNotFoundError(args.input_file)
     if args.input_file.lower().split(".")[-1] not in ["csv", "arff"]:
         raise ValueError("Unknown file extension. Please use csv or arff.")
 
     kwargs = {}
     if args.input_file.lower().endswith(".csv") and args.separator is not None:
-        kwargs["sep"] = args.seperator
+        kwargs["sep"] = args.separator
 
     x, y = X_y_from_file(
-        file_path=args.input_file.lower(),
+        file_path=args.input_file,
         split_column=args.target,
         **kwargs,
     )
-- 
2.43.0


From 55ce4420386728f6625513e56c9b16993c3f99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 23/45] fix: quote logged values which contain the separator or
 a newline

---
 gama/logging/evaluation_logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 19df488..3577063 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -1,3 +1,4 @@
+import csv
 from datetime import datetime
 from functools import partial
 import operator
@@ -67,8 +68,9 @@ class EvaluationLogger:
 
     def log_line(self, values: Iterable[str]) -> None:
         """Appends `values` as a row of separated values to the file."""
-        with open(self._file_path, "a") as evaluations:
-            evaluations.write(self._sep.join(values) + "\n")
+        with open(self._file_path, "a", newline="") as evaluations:
+            writer = csv.writer(evaluations, delimiter=self._sep, lineterminator="\n")
+            writer.writerow(values)
 
     def log_evaluation(self, evaluation) -> None:
         values = [getter(evaluation) for getter in self.fields.values()]
-- 
2.43.0


From b5d088324dcdce13adcb39f2f04161c29a133d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 24/45] fix: give each Pareto front its own rank

---
 gama/genetic_programming/nsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/nsga2.py b/gama/genetic_programming/nsga2.py
index 4def237..a00085c 100644
--- a/gama/genetic_programming/nsga2.py
+++ b/gama/genetic_programming/nsga2.py
@@ -139,7 +139,7 @@ def fast_non_dominated_sort(P: List[NSGAMeta]) -> List[List[NSGAMeta]]:
             for q in p.dominating:
                 q.domination_counter -= 1
                 if q.domination_counter == 0:
-                    q.rank = i + 1
+                    q.rank = i + 2
                     fronts[i + 1].append(q)
         i += 1
     return fronts
-- 
2.43.0


From ba8351e4fab91ac397b0dd441fc8dc94ab1a7257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:28 +0000
Subject: [PATCH 25/45] fix: select parents on all optimization metrics,
 however many there are

---
 gama/genetic_programming/selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index dd403de..735b5e9 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -18,7 +18,8 @@ def create_from_population(
 ) -> List[Individual]:
     """Creates n new individuals based on the population."""
     offspring = []
-    metrics = [lambda ind: ind.fitness.values[0], lambda ind: ind.fitness.values[1]]
+    n_metrics = len(pop[0].fitness.values)
+    metrics = [lambda ind, i=i: ind.fitness.values[i] for i in range(n_metrics)]
     parent_pairs = nsga2_select(pop, n, metrics)
     for ind1, ind2 in parent_pairs:
         if random.random() < cxpb and len(_valid_crossover_functions(ind1, ind2)) > 0:
-- 
2.43.0


From cc6af9e914268b13d77a9bc95b5cf2edfc20262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 26/45] fix: GamaClassifier.fit modified the metrics provided
 by the user

---
 gama/GamaClassifier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index e252b32..b18aec5 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -1,3 +1,4 @@
+import copy
 import inspect
 from typing import Union, Optional
 
@@ -137,6 +138,8 @@ class GamaClassifier(Gama):
         # Add label information for classification to the scorer such that
         # the cross validator does not encounter unseen labels in smaller
         # data sets during pipeline evaluation.
+        # Metrics can be provided by the user, so the originals are left unchanged.
+        self._metrics = copy.deepcopy(self._metrics)
         for m in self._metrics:
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
                 m.scorer._kwargs.update({"labels": y})
-- 
2.43.0


From 7a88fce766d807da1ad00214a9540eed8364808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:16 +0000
Subject: [PATCH 27/45] fix: ASHA broke ties between candidates by their random
 identifier

---
 gama/search_methods/asha.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index e798723..20c8576 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -154,8 +154,11 @@ def asha(
             # This is not in the paper code but is derived from fig 2b
             n_to_promote = math.floor(len(individuals) / reduction_factor)
             if n_to_promote - len(promoted_individuals[rung]) > 0:
-                # Problem: equal loss falls back on comparison of individual
-                not_promoted = set(individuals) - set(promoted_individuals[rung])
+                # On equal loss the first evaluated is promoted. A set would order
+                # them by their random id, which does not follow `random_state`.
+                not_promoted = [
+                    i for i in individuals if i not in promoted_individuals[rung]
+                ]
                 if len(not_promoted) > 0:
                     to_promote = max(not_promoted, key=lambda i: i[0])
                     promoted_individuals[rung].append(to_promote)
-- 
2.43.0


From ffd6b7229a160aea7915d210eaf07c5bb25741a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:36 +0000
Subject: [PATCH 28/45] fix: workers that died were not replaced because they
 remained as zombies

---
 gama/utilities/generic/async_evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 5470f0d..94ea09b 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -316,6 +316,10 @@ class AsyncEvaluator:
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
+                if process.status() == psutil.STATUS_ZOMBIE:
+                    # A worker that died still exists until it has been waited for.
+                    process.wait()
+                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
-- 
2.43.0


From 48aa8903c8c76d589048f18bd11db9d7303761c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:38 +0000
Subject: [PATCH 29/45] fix: memory control raised an error when all workers
 had died

---
 gama/utilities/generic/async_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 94ea09b..35fd193 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -276,6 +276,9 @@ class AsyncEvaluator:
         # in particular there is a risk that terminating the process might leave
         # the multiprocess queue broken.
         mem_proc = list(self._get_memory_usage())
+        if len(mem_proc) == 1:
+            # All workers died. They have been replaced, but not measured yet.
+            return
         if sum(map(lambda x: x[1], mem_proc)) > self._memory_limit_mb:
             log.info(
                 f"GAMA exceeded memory usage "
-- 
2.43.0


From e4bdc13bf1f56a490aa4c9633380672a58217eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 30/45] fix: a failed fit left the model of an earlier fit with
 another encoding

---
 gama/GamaClassifier.py | 1 +
 gama/gama.py           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index b18aec5..fa88160 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -129,6 +129,7 @@ class GamaClassifier(Gama):
         """Should use base class documentation."""
         # Unlabeled rows are removed first, or NaN is encoded as one of the classes.
         x, y = format_x_y(x, y)
+        self.model = None
         self._label_encoder = LabelEncoder().fit(y)
         if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
diff --git a/gama/gama.py b/gama/gama.py
index 4c347a7..45abdcb 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -528,6 +528,8 @@ class Gama(ABC):
             If None is given, random start candidates are generated.
         """
         self._time_manager = TimeKeeper(self._time_manager.total_time)
+        # If this fit fails, a model of an earlier fit does not match the encoding.
+        self.model = None
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
-- 
2.43.0


From 175433ba2405450d826b68bf3b6757d83b0b9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:09 +0000
Subject: [PATCH 31/45] fix: an ensemble that took all its time to build was
 not able to predict

---
 gama/postprocessing/ensemble.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index e3db09b..164dca5 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -519,8 +519,10 @@ def build_fit_ensemble(
 
         build_time = time.time() - start_build
         timeout -= build_time
-        log.info(f"Ensemble build took {build_time}s. Fit with timeout {timeout}s.")
-        ensemble.fit(x, y, timeout)
+        log.info(f"Ensemble build took {build_time}s. {timeout}s remaining.")
+        # The members were fitted during search. If the build took all available time,
+        # the ensemble must still get its members, or it is not able to predict.
+        ensemble.fit(x, y)
     except Exception as e:
         log.warning(f"Error during auto ensemble: {e}", exc_info=True)
 
-- 
2.43.0


From 0c68d881b901742e0ce8a5c205a542c8fad9fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:24 +0000
Subject: [PATCH 32/45] fix: the ensemble uses the configured hillclimb_size
 and max_models

---
 gama/postprocessing/ensemble.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 164dca5..75d9f60 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -57,8 +57,8 @@ class EnsemblePostProcessing(BasePostProcessing):
             ensemble_size=(ensemble_size, 25),
             metric=(None, None),
             evaluation_library=(None, None),
-            hillclimb_size=(hillclimb_size, 10_000),
-            max_models=(max_models, 200),
+            hillclimb_size=(hillclimb_size, None),
+            max_models=(max_models, None),
         )
         self._ensemble: Optional[Ensemble] = None
 
@@ -78,6 +78,8 @@ class EnsemblePostProcessing(BasePostProcessing):
             timeout,
             self.hyperparameters["metric"],
             self.hyperparameters["evaluation_library"],
+            downsample_to=self.hyperparameters["hillclimb_size"],
+            use_top_n_only=self.hyperparameters["max_models"],
         )
         return self._ensemble
 
@@ -206,7 +208,10 @@ class Ensemble(object):
     def model_library(self):
         if not self._model_library:
             self._model_library = []
-            for evaluation in self.evaluation_library.n_best(self._use_top_n_only):
+            n = self._use_top_n_only
+            if n is None:
+                n = len(self.evaluation_library.top_evaluations)
+            for evaluation in self.evaluation_library.n_best(n):
                 predictions = evaluation.predictions
                 if self._prediction_transformation:
                     predictions = self._prediction_transformation(predictions)
@@ -491,15 +496,23 @@ def build_fit_ensemble(
     metric: Metric,
     evaluation_library: EvaluationLibrary,
     encoder: Optional[object] = None,
+    **kwargs,
 ) -> Ensemble:
-    """Construct an Ensemble of models, optimizing for metric."""
+    """Construct an Ensemble of models, optimizing for metric.
+
+    Additional keyword arguments are passed to the Ensemble.
+    """
     start_build = time.time()
 
     log.debug("Building ensemble.")
     if metric.task_type == MetricType.REGRESSION:
-        ensemble = EnsembleRegressor(metric, y, evaluation_library)  # type: Ensemble
+        ensemble = EnsembleRegressor(
+            metric, y, evaluation_library, **kwargs
+        )  # type: Ensemble
     elif metric.task_type == MetricType.CLASSIFICATION:
-        ensemble = EnsembleClassifier(metric, y, evaluation_library=evaluation_library)
+        ensemble = EnsembleClassifier(
+            metric, y, evaluation_library=evaluation_library, **kwargs
+        )
         ensemble._label_encoder = encoder
     else:
         raise ValueError(f"Unknown metric task type {metric.task_type}")
-- 
2.43.0


From a8c20770d5b3381c54234ac5a771968e14500feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:45 +0000
Subject: [PATCH 33/45] fix: read the header of csv files with an upper case
 extension

load_feature_metadata_from_file accepts extensions in any case, but refused
"DATA.CSV" because load_csv_header only accepts lower case.
---
 gama/data_loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 3833d1f..5ca58c0 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -22,7 +22,7 @@ def sniff_csv_meta(file_path: str) -> Tuple[str, bool]:
 
 def load_csv_header(file_path: str, **kwargs) -> List[str]:
     """Return column names in the header, or 0...N if no header is present."""
-    if not file_path.endswith(".csv"):
+    if not file_path.lower().endswith(".csv"):
         raise ValueError(f"{file_path} is not a file with .csv extension.")
     sep, has_header = sniff_csv_meta(file_path)
     sep = kwargs.get("sep", sep)
-- 
2.43.0


From b7df7cb1f125619555829e559145a03fccccd86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:45 +0000
Subject: [PATCH 34/45] fix: export all column names of preprocessing steps

str() of a transformer abbreviates lists of more than 30 elements with "...",
so the exported script of data with many categorical columns had an encoder
for the wrong columns.
---
 gama/utilities/export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/export.py b/gama/utilities/export.py
index 8c92e03..711b6af 100644
--- a/gama/utilities/export.py
+++ b/gama/utilities/export.py
@@ -11,7 +11,14 @@ def transformers_to_str(transformers: List[TransformerMixin]) -> List[str]:
     for transformer in copies:
         if hasattr(transformer, "mapping"):
             transformer.mapping = None
-    return list(map(str, copies))
+    # str(transformer) abbreviates long values, such as the names of many columns.
+    return [
+        "{}({})".format(
+            transformer.__class__.__name__,
+            ", ".join(f"{k}={v!r}" for k, v in transformer.get_params(False).items()),
+        )
+        for transformer in copies
+    ]
 
 
 def format_import(o: object) -> str:
-- 
2.43.0


From b11ba1c677fc3cbc0c3f9871a164b5d29ff852d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:23 +0000
Subject: [PATCH 35/45] fix: don't log the search space as setting, reports
 can't read it

---
 gama/gama.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 45abdcb..d565df6 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -224,7 +224,15 @@ class Gama(ABC):
             [
                 f"{k}={v}"
                 for (k, v) in locals().items()
-                if k not in ["self", "config", "log_file", "log_handler", "log_format"]
+                if k
+                not in [
+                    "self",
+                    "config",
+                    "search_space",
+                    "log_file",
+                    "log_handler",
+                    "log_format",
+                ]
             ]
         )
         log.info(f"Using GAMA version {__version__}.")
-- 
2.43.0


From 32891a50eb7738ba14308081f567801f48561cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:23 +0000
Subject: [PATCH 36/45] fix: reports read logs of runs without length
 regularization

---
 gama/logging/GamaReport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 56e6af4..997ad4b 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -58,7 +58,7 @@ class GamaReport:
                 self.phases.append((phase, algorithm, start_time, d))
 
         self.metrics = self.hyperparameters["scoring"].split(",")
-        if self.hyperparameters["regularize_length"]:
+        if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
         self.incomplete = len(self.phases) < 3
@@ -86,7 +86,8 @@ class GamaReport:
             df = df.rename(columns=dict(t_start="start", t_wallclock="duration"))
 
             def tuple_to_metrics(tuple_str):
-                return pd.Series([float(value) for value in tuple_str[1:-1].split(",")])
+                values = tuple_str[1:-1].rstrip(",").split(",")
+                return pd.Series([float(value) for value in values])
 
             df[self.metrics] = df.score.apply(tuple_to_metrics)
             df.start = pd.to_datetime(
-- 
2.43.0


From bcd2ad062f33712c56e0b05f443461269542e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:23 +0000
Subject: [PATCH 37/45] fix: reports read logs of runs with several metrics

---
 gama/logging/GamaReport.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 997ad4b..ce8708c 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -1,4 +1,5 @@
 import os
+import re
 from datetime import datetime, timedelta
 from typing import List, Tuple, Dict
 
@@ -57,7 +58,8 @@ class GamaReport:
                 start_time = end_time - timedelta(seconds=d)
                 self.phases.append((phase, algorithm, start_time, d))
 
-        self.metrics = self.hyperparameters["scoring"].split(",")
+        scoring = self.hyperparameters["scoring"].rstrip(",").split(",")
+        self.metrics = [metric.strip(" '") for metric in scoring]
         if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
@@ -130,8 +132,7 @@ class GamaReport:
 # new
 def init_to_hps(init_line: str) -> Dict[str, str]:
     all_arguments = init_line.split("(", maxsplit=1)[-1].rsplit(")", maxsplit=1)[0]
-    # A little hackery to get nested configurations (e.g. of search) to work
-    # only supports one nested level - will do proper parsing later
-    for token in ["()", "(", ")", ",,"]:
-        all_arguments = all_arguments.replace(token, ",")
-    return dict(hp.split("=") for hp in all_arguments.split(","))
+    # Arguments of nested configurations (e.g. of search) are listed as any other.
+    # Only supports one nested level - will do proper parsing later
+    arguments = re.findall(r"(\w+)=(.*?)(?=,\w+=|\(\w+=|$)", all_arguments)
+    return {name: value.strip("()") for name, value in arguments}
-- 
2.43.0


From 47a533adee3daf5f90141791c12114b1d0eb7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:23 +0000
Subject: [PATCH 38/45] fix: reports read gama.log from the expanded directory,
 too

---
 gama/logging/GamaReport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index ce8708c..aadce54 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -42,7 +42,7 @@ class GamaReport:
         self.strict = strict
 
         # Parse initialization/progress information from gama.log
-        with open(os.path.join(log_directory, "gama.log")) as fh:
+        with open(os.path.join(self._log_directory, "gama.log")) as fh:
             gama_lines = fh.readlines()
 
         for line in gama_lines:
-- 
2.43.0


From 0e263d1770654a98536d0b939fdcebc2a4fb7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 39/45] fix: averaged classification metrics counted a label
 once for each row that has it

---
 gama/GamaClassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index fa88160..15329ef 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -143,7 +143,8 @@ class GamaClassifier(Gama):
         self._metrics = copy.deepcopy(self._metrics)
         for m in self._metrics:
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
-                m.scorer._kwargs.update({"labels": y})
+                # Each label once: duplicates would count double in averaged metrics.
+                m.scorer._kwargs.update({"labels": np.unique(y)})
 
         return super().fit(x, y, *args, **kwargs)
 
-- 
2.43.0


From 2e2233d7916fef47c38a6db82bfc273c4501b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 40/45] fix: Metric.score ignored the arguments of the scorer,
 such as the kind of average

---
 gama/utilities/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 2c4e21d..68574ea 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -1,4 +1,5 @@
 from enum import Enum
+from functools import partial
 from typing import Iterable, Tuple, Union
 
 from sklearn.metrics import get_scorer
@@ -54,7 +55,8 @@ class Metric:
                 "Not sure which type of metric this is. Please raise an issue."
             )
 
-        self.score = self.scorer._score_func
+        # Metrics such as "f1_macro" are a function with specific arguments.
+        self.score = partial(self.scorer._score_func, **self.scorer._kwargs)
 
     def __call__(self, *args, **kwargs) -> float:
         return self.scorer(*args, **kwargs)
-- 
2.43.0


From 24aa4b2d86345697605b31f4c7cfab1f6d0b4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:12 +0000
Subject: [PATCH 41/45] fix: of a frame with several columns the first is the
 target, as documented

---
 gama/data_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index b214653..beb2e6f 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -47,7 +47,7 @@ def format_y(
         y = np.argmax(y, axis=1) if y.shape[1] > 1 else y.squeeze()
     if y_type == pd.Series:
         if isinstance(y, pd.DataFrame):
-            y = y.squeeze()
+            y = y.iloc[:, 0]
         elif isinstance(y, np.ndarray):
             y = pd.Series(y)
     elif y_type == pd.DataFrame:
-- 
2.43.0


From 98a5ecc5467a9957029ea5ea15808f69e088b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:27 +0000
Subject: [PATCH 42/45] fix: look at the state of a worker only when it uses no
 memory

Reading the state of each worker at each check doubled the time in which a
timeout may interrupt psutil while it reads from /proc.
---
 gama/utilities/generic/async_evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 35fd193..c3b701b 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -319,11 +319,12 @@ class AsyncEvaluator:
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
-                if process.status() == psutil.STATUS_ZOMBIE:
+                memory = process.memory_info()[0]
+                if memory == 0 and process.status() == psutil.STATUS_ZOMBIE:
                     # A worker that died still exists until it has been waited for.
                     process.wait()
                     raise NoSuchProcess(process.pid)
-                yield process, process.memory_info()[0] / (2**20)
+                yield process, memory / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
                 self._processes = [p for p in self._processes if p.pid != process.pid]
-- 
2.43.0


From 26314b8fad9246b2eb793398521a3d0b46e92557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 43/45] fix: algorithms left out for large data are available
 again in a later fit

---
 gama/gama.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index d565df6..0f61234 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -307,6 +307,7 @@ class Gama(ABC):
         self.evaluation_completed(e.log_evaluation)
 
         self._pset, parameter_checks = pset_from_config(search_space)
+        self._complete_pset = dict(self._pset)
 
         if DATA_TERMINAL not in self._pset:
             if max_pipeline_length is None:
@@ -555,6 +556,8 @@ class Gama(ABC):
                 self._operator_set._compile,
                 preprocessing_steps=self._fixed_pipeline_extension,
             )
+            # What is left out of the search depends on the data of this fit only.
+            self._pset.update(self._complete_pset)
             store_pipelines = (
                 self._evaluation_library._m is None or self._evaluation_library._m > 0
             )
-- 
2.43.0


From 60b4c21c7701a2998147c3d7f8dccae7ae194b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:37 +0000
Subject: [PATCH 44/45] fix: forget the evaluations of an earlier fit when
 fitting again

---
 gama/GamaClassifier.py               |  1 -
 gama/gama.py                         |  4 ++++
 gama/utilities/evaluation_library.py | 11 +++++++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 15329ef..d93573b 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -134,7 +134,6 @@ class GamaClassifier(Gama):
         if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
             y = pd.Series(self._label_encoder.transform(y), index=y.index)
-        self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
         # the cross validator does not encounter unseen labels in smaller
diff --git a/gama/gama.py b/gama/gama.py
index 0f61234..16ec060 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -539,6 +539,8 @@ class Gama(ABC):
         self._time_manager = TimeKeeper(self._time_manager.total_time)
         # If this fit fails, a model of an earlier fit does not match the encoding.
         self.model = None
+        # Evaluations of an earlier fit are about other data, their files may be gone.
+        self._evaluation_library.clear()
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
@@ -546,6 +548,8 @@ class Gama(ABC):
             x, self._y = format_x_y(x, y)
             self._inferred_dtypes = x.dtypes
             is_classification = hasattr(self, "_label_encoder")
+            if is_classification:
+                self._evaluation_library.determine_sample_indices(stratify=self._y)
             self._x, self._basic_encoding_pipeline = basic_encoding(
                 x, is_classification
             )
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index ad9ce85..169b3b7 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -160,6 +160,17 @@ class EvaluationLibrary:
             self._sample = None
         else:
             self._sample = "not set"
+        self._initial_sample = self._sample
+
+    def clear(self) -> None:
+        """Forget all evaluations, e.g. because new ones will be about other data."""
+        for evaluation in self.top_evaluations:
+            if os.path.exists(evaluation._cache_file):
+                evaluation.remove_from_disk()
+        self.top_evaluations, self.other_evaluations = [], []
+        self.lookup.clear()
+        self._sample = self._initial_sample
+        os.makedirs(self._cache, exist_ok=True)
 
     @property
     def evaluations(self) -> List[Evaluation]:
-- 
2.43.0


From 4aa4fdeaa05d798a0bcbf33f20dc2fbdbcf5ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 45/45] fix: compile pipelines of an earlier fit with the fixed
 steps of the current one

---
 gama/gama.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 16ec060..192c118 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -643,6 +643,9 @@ class Gama(ABC):
             pop = list(warm_start)
         elif warm_start is None and len(self._final_pop) > 0:
             pop = list(self._final_pop)
+            for individual in pop:
+                # Fixed steps of an earlier fit need not match the data of this one.
+                individual._to_pipeline = self._operator_set._safe_compile
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
-- 
2.43.0

