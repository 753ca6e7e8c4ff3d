From faef0c7f63a0b0be050b8696be46a2d4a27bc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 01/31] fix: crossover offspring must respect the maximum
 pipeline length

random_crossover returns the offspring within `max_length` first, but
OperatorSet.mate ignored the return value and always used the first parent's copy.
---
 gama/genetic_programming/operator_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 995f7c1..2cd1543 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -62,7 +62,10 @@ class OperatorSet:
     def mate(self, ind1: Individual, ind2: Individual, *args, **kwargs) -> Individual:
         def mate_with_log():
             new_individual1, new_individual2 = ind1.copy_as_new(), ind2.copy_as_new()
-            self._mate(new_individual1, new_individual2, *args, **kwargs)
+            # The first returned individual is the one that respects `max_length`.
+            new_individual1, _ = self._mate(
+                new_individual1, new_individual2, *args, **kwargs
+            )
             new_individual1.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
             return new_individual1
 
-- 
2.43.0


From 89f94891d3898ce3e6e64e4db853ccea3323e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 02/31] fix: NSGA-II assigned rank 1 to both the first and the
 second front

The first front has rank 1, but the front found while processing front index i
is front i + 2 (counting from 1). Dominated individuals could win tournaments.
---
 gama/genetic_programming/nsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/nsga2.py b/gama/genetic_programming/nsga2.py
index 4def237..a00085c 100644
--- a/gama/genetic_programming/nsga2.py
+++ b/gama/genetic_programming/nsga2.py
@@ -139,7 +139,7 @@ def fast_non_dominated_sort(P: List[NSGAMeta]) -> List[List[NSGAMeta]]:
             for q in p.dominating:
                 q.domination_counter -= 1
                 if q.domination_counter == 0:
-                    q.rank = i + 1
+                    q.rank = i + 2
                     fronts[i + 1].append(q)
         i += 1
     return fronts
-- 
2.43.0


From a1b45b644ecbd2137c660c3f849af181f58c3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 03/31] fix: subsampled training folds leaked rows of the test
 fold

The sampler returns positions within the fold's training set; they were used as
positions in the whole dataset. Labels are now also selected by position.
---
 gama/genetic_programming/compilers/scikitlearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 312ee2e..af66708 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -105,9 +105,9 @@ def evaluate_pipeline(
                         sampler = ShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
                         )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train[train]
+                    full_train_x, full_train_y = x.iloc[train, :], y_train.iloc[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((subsample_idx, test))
+                    new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From 8a5efc6ffe54b9868dec39a1d80bbb33b893bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 04/31] fix: remove unlabeled rows by position, not by index
 label

With differently indexed x and y the wrong rows of x were removed, or an error raised.
---
 gama/data_formatting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 62628d4..d547c4c 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -70,7 +70,8 @@ def remove_unlabeled_rows(
             f"Target vector has been found to contain {sum(unlabeled)} NaN-labels, "
             f"these rows will be ignored."
         )
-        x, y = x.loc[~unlabeled], y.loc[~unlabeled]
+        labeled = ~unlabeled.to_numpy()  # rows of x and y match by position
+        x, y = x.loc[labeled], y.loc[labeled]
     return x, y
 
 
-- 
2.43.0


From 9702d199f22697bd6652edf0aef277fa2f179a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 05/31] fix: merging configurations must not modify its
 arguments

Importing gama.logging.GamaReport changed the default classification search space.
---
 gama/configuration/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index 705ec26..e7a0508 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -109,7 +109,10 @@ def pset_from_config(
 def merge_configurations(c1: Dict, c2: Dict) -> Dict:
     """Takes two configurations and merges them together."""
     # Should refactor out 6 indentation levels
-    merged: Dict[Any, Any] = defaultdict(lambda: None, c1)
+    merged: Dict[Any, Any] = defaultdict(
+        lambda: None,
+        {k: dict(v) if isinstance(v, dict) else v for k, v in c1.items()},
+    )
     for algorithm, hparams2 in c2.items():
         if algorithm not in merged:
             merged[algorithm] = hparams2
-- 
2.43.0


From edadbea4a8b700109670e86e5ab63ae398859129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:47 +0000
Subject: [PATCH 06/31] fix: default max_eval_time and n_jobs must be positive

---
 gama/gama.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index c06cbcb..f2cc1a6 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -229,7 +229,7 @@ class Gama(ABC):
         log.info(f"INIT:{self.__class__.__name__}({arguments})")
 
         if n_jobs is None:
-            n_jobs = multiprocessing.cpu_count() // 2
+            n_jobs = max(1, multiprocessing.cpu_count() // 2)
             log.debug("n_jobs defaulted to %d.", n_jobs)
         elif n_jobs == -1:
             n_jobs = multiprocessing.cpu_count()
@@ -258,7 +258,7 @@ class Gama(ABC):
         )
 
         if max_eval_time is None:
-            max_eval_time = round(0.1 * max_total_time)
+            max_eval_time = max(1, round(0.1 * max_total_time))
         if max_eval_time > max_total_time:
             log.warning(
                 f"max_eval_time ({max_eval_time}) > max_total_time ({max_total_time}) "
-- 
2.43.0


From c972972a8cccd41b0437ef2501bc5ac0a2310d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:47 +0000
Subject: [PATCH 07/31] fix: worker processes died on results without an
 `error` attribute

---
 gama/utilities/generic/async_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 5470f0d..13e7a3f 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -359,7 +359,7 @@ def evaluator_daemon(
                         result = future.result[0]
                     else:
                         result = future.result
-                    if isinstance(result.error, MemoryError):
+                    if isinstance(getattr(result, "error", None), MemoryError):
                         # Can't pickle MemoryErrors. Should work around this later.
                         result.error = "MemoryError"
                         gc.collect()
-- 
2.43.0


From ea8ea215afab532969129afbd96d2d98c0e87719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:47 +0000
Subject: [PATCH 08/31] fix: targets of a downsampled classification ensemble
 were sampled twice

---
 gama/postprocessing/ensemble.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index ef18e58..aca1f5a 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -423,8 +423,6 @@ class EnsembleClassifier(Ensemble):
             self._y = self._one_hot_encoder.transform(
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
-            if self._prediction_sample is not None:
-                self._y = self._y[self._prediction_sample]
         else:
 
             def one_hot_encode_predictions(predictions):
-- 
2.43.0


From a8f6048f81c6e3df912e33a8441f82956239370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:47 +0000
Subject: [PATCH 09/31] fix: an activity ended by an exception stayed the
 current activity

---
 gama/utilities/generic/timekeeper.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gama/utilities/generic/timekeeper.py b/gama/utilities/generic/timekeeper.py
index 7253c8b..6a78fe4 100644
--- a/gama/utilities/generic/timekeeper.py
+++ b/gama/utilities/generic/timekeeper.py
@@ -114,9 +114,11 @@ class TimeKeeper:
         act = f"{activity} {','.join(map(str, activity_meta))}"
         log.info(f"START: {act}")
 
-        with Stopwatch() as sw:
-            self.current_activity = Activity(activity, sw, time_limit)
-            self.activities.append(self.current_activity)
-            yield sw
-        self.current_activity = None
+        try:
+            with Stopwatch() as sw:
+                self.current_activity = Activity(activity, sw, time_limit)
+                self.activities.append(self.current_activity)
+                yield sw
+        finally:
+            self.current_activity = None
         log.info(f"STOP: {act} after {sw.elapsed_time:.4f}s.")
-- 
2.43.0


From 0d7c3aae7fba2785db3d2bf050a7473ae423c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:47 +0000
Subject: [PATCH 10/31] fix: replace_terminal silently ignored a position one
 past the end

---
 gama/genetic_programming/components/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/components/individual.py b/gama/genetic_programming/components/individual.py
index 83f161f..1ebd5fe 100644
--- a/gama/genetic_programming/components/individual.py
+++ b/gama/genetic_programming/components/individual.py
@@ -99,7 +99,7 @@ class Individual:
                 return
             else:
                 scan_position += len(primitive._terminals)
-        if scan_position < position:
+        if scan_position <= position:
             raise ValueError(
                 f"Position {position} is out of range with {scan_position} terminals."
             )
-- 
2.43.0


From 31cfce7e3fa7bede2b7ffb64c5cbcf8bcd3192f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 11/31] fix: pass each class label once to scorers, not once
 per row

---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 5ae2749..e9b0efa 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -137,7 +137,7 @@ class GamaClassifier(Gama):
         # data sets during pipeline evaluation.
         for m in self._metrics:
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
-                m.scorer._kwargs.update({"labels": y})
+                m.scorer._kwargs.update({"labels": np.unique(y)})
 
         super().fit(x, y, *args, **kwargs)
 
-- 
2.43.0


From c656371c7221a5bd83c637abe7bd624b4686aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 12/31] fix: unlabeled rows became a class of their own for
 string targets

---
 gama/GamaClassifier.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index e9b0efa..83ed8f5 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -7,6 +7,7 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
+from gama.data_formatting import format_x_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
@@ -125,11 +126,13 @@ class GamaClassifier(Gama):
 
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
-        y_ = y.squeeze() if isinstance(y, pd.DataFrame) else y
-        self._label_encoder = LabelEncoder().fit(y_)
-        if any(isinstance(yi, str) for yi in y_):
+        # Unlabeled rows are removed first: they should not become a separate class,
+        # nor be taken into account for the sampling of predictions.
+        x, y = format_x_y(x, y)
+        self._label_encoder = LabelEncoder().fit(y)
+        if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-            y = self._label_encoder.transform(y_)
+            y = self._label_encoder.transform(y)
         self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
-- 
2.43.0


From 230bedaf57d8d29d390eac0e7895b4f46a00716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 13/31] fix: failed evaluations must not report scores,
 predictions or estimators

---
 gama/genetic_programming/compilers/scikitlearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index af66708..599f16b 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -80,7 +80,7 @@ def evaluate_pipeline(
 
     prediction, estimators = None, None
     # default score for e.g. timeout or failure
-    scores = tuple([float("-inf")] * len(metrics))
+    failure_scores = tuple([float("-inf")] * len(metrics))
     is_classification = is_classifier(pipeline)
 
     with stopit.ThreadingTimeout(timeout) as c_mgr:
@@ -144,7 +144,7 @@ def evaluate_pipeline(
         except KeyboardInterrupt:
             raise
         except Exception as e:
-            return prediction, scores, estimators, e
+            return None, failure_scores, None, e
 
     if c_mgr.state == c_mgr.INTERRUPTED:
         # A TimeoutException was raised, but not by the context manager.
@@ -154,7 +154,7 @@ def evaluate_pipeline(
     return (
         (prediction, tuple(scores), estimators, None)
         if c_mgr
-        else (prediction, scores, estimators, stopit.TimeoutException())
+        else (None, failure_scores, None, stopit.TimeoutException())
     )
 
 
-- 
2.43.0


From c47449d437322fedd017c8bd890f02aeb6213b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 14/31] fix: AsyncEA crashed when it needed offspring from
 fewer than three parents

---
 gama/search_methods/async_ea.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/async_ea.py b/gama/search_methods/async_ea.py
index b7d6bd6..113eedf 100644
--- a/gama/search_methods/async_ea.py
+++ b/gama/search_methods/async_ea.py
@@ -139,7 +139,11 @@ def async_ea(
                     # Increasing the number decreases the risk of lost compute time,
                     # but also increases information lag. An offspring created too
                     # early might miss out on a better parent.
-                    new_individual = ops.create(current_population, 1)[0]
+                    if len(current_population) < 3:
+                        # Too few individuals to select a pair of parents from.
+                        new_individual = ops.individual()
+                    else:
+                        new_individual = ops.create(current_population, 1)[0]
                     async_.submit(ops.evaluate, new_individual)
 
                 should_restart = restart_callback is not None and restart_callback()
-- 
2.43.0


From 9a5959ce40bb9fd2caa242b3ad786716d74884d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 15/31] fix: quote values in the evaluation log which contain a
 separator or newline

---
 gama/logging/evaluation_logger.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 19df488..5ee3281 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -67,8 +67,14 @@ class EvaluationLogger:
 
     def log_line(self, values: Iterable[str]) -> None:
         """Appends `values` as a row of separated values to the file."""
+
+        def quote(value: str) -> str:
+            if any(token in value for token in (self._sep, '"', "\n", "\r")):
+                return '"' + value.replace('"', '""') + '"'
+            return value
+
         with open(self._file_path, "a") as evaluations:
-            evaluations.write(self._sep.join(values) + "\n")
+            evaluations.write(self._sep.join(map(quote, values)) + "\n")
 
     def log_evaluation(self, evaluation) -> None:
         values = [getter(evaluation) for getter in self.fields.values()]
-- 
2.43.0


From 7d9e9e5e8172cd52cfd4fe5bb33904c0cb66f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 16/31] fix: replacement mutations require one replaceable
 component, not two

---
 gama/genetic_programming/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index ad0457c..0c6bcea 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -153,7 +153,7 @@ def random_valid_mutation_in_place(
         replaceable_primitives = filter(
             lambda p: len(primitive_set[p._primitive.output]) > 1, individual.primitives
         )
-        if len(list(replaceable_primitives)) > 1:
+        if len(list(replaceable_primitives)) > 0:
             available_mutations.append(mut_replace_primitive)
 
         if max_length is None or n_primitives < max_length:
@@ -164,7 +164,7 @@ def random_valid_mutation_in_place(
         replaceable_terminals = filter(
             lambda t: len(primitive_set[t.identifier]) > 1, individual.terminals
         )
-        if len(list(replaceable_terminals)) > 1:
+        if len(list(replaceable_terminals)) > 0:
             available_mutations.append(mut_replace_terminal)
 
     mut_fn = random.choice(available_mutations)
-- 
2.43.0


From 4fff783b6ec642536d22740aa2f3ee85b8c64748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 17/31] fix: mutating an individual which exceeds the maximum
 length raised an error

---
 gama/genetic_programming/operator_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 2cd1543..d276509 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -75,6 +75,7 @@ class OperatorSet:
         def mutate_with_log():
             new_individual = ind.copy_as_new()
             mutator = self._mutate(new_individual, *args, **kwargs)
+            mutator = getattr(mutator, "func", mutator)  # mutator may be a `partial`
             new_individual.meta = dict(parents=[ind._id], origin=mutator.__name__)
             return new_individual
 
-- 
2.43.0


From 14a1adcba57cc888008e8b4a14b5899fcbe1618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 18/31] fix: ASHA raised an UnboundLocalError when stopped
 before the first result

---
 gama/search_methods/asha.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 66ceb83..02d92e6 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -195,16 +195,16 @@ def asha(
                 start_new_job()
 
             highest_rung_reached = max(rungs)
-    except stopit.TimeoutException:
-        log.info("ASHA ended due to timeout.")
+    except (stopit.TimeoutException, KeyboardInterrupt):
+        log.info("ASHA ended due to timeout or interrupt.")
         reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
-        highest_rung_reached = max(reached_rungs)
+        highest_rung_reached = max(reached_rungs, default=max(rungs))
         if highest_rung_reached != max(rungs):
-            raise RuntimeWarning("Highest rung not reached.")
-    finally:
-        for rung, individuals in rung_individuals.items():
-            log.info(f"[{len(individuals)}] {rung}")
-        return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
+            log.warning("Highest rung not reached.")
+
+    for rung, individuals in rung_individuals.items():
+        log.info(f"[{len(individuals)}] {rung}")
+    return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
 
 
 def evaluate_on_rung(individual, rung, max_rung, evaluate_individual, *args, **kwargs):
-- 
2.43.0


From 2c5b46eb12b043c834d024d72705e377a569e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 19/31] fix: evaluations of the same individual shared one file
 on disk

---
 gama/utilities/evaluation_library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index ad9ce85..660ba48 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -4,6 +4,7 @@ import logging
 from typing import Tuple, List, Optional, Union, Dict
 import pickle
 import os
+import uuid
 
 import numpy as np
 import pandas as pd
@@ -44,7 +45,9 @@ class Evaluation:
 
     def to_disk(self, directory: str) -> None:
         """Save Evaluation in the provided directory."""
-        self._cache_file = os.path.join(directory, f"{str(self.individual._id)}.pkl")
+        # An individual may be evaluated more than once (e.g. with a warm start).
+        file_name = f"{str(self.individual._id)}_{str(uuid.uuid4())}.pkl"
+        self._cache_file = os.path.join(directory, file_name)
         with open(self._cache_file, "wb") as fh:
             pickle.dump((self._estimators, self._predictions), fh)
         self._estimators, self._predictions = [], None
-- 
2.43.0


From 1f362acaf6ba7ba1774d3e057fff8433f98eefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:51 +0000
Subject: [PATCH 20/31] fix: a result without a truth value made the worker
 lose the job

---
 gama/utilities/generic/async_evaluator.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 13e7a3f..c90c7f4 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -354,15 +354,13 @@ def evaluator_daemon(
             try:
                 future = input_queue.get(block=False)
                 future.execute(default_parameters)
-                if future.result:
-                    if isinstance(future.result, tuple):
-                        result = future.result[0]
-                    else:
-                        result = future.result
-                    if isinstance(getattr(result, "error", None), MemoryError):
-                        # Can't pickle MemoryErrors. Should work around this later.
-                        result.error = "MemoryError"
-                        gc.collect()
+                result = future.result
+                if isinstance(result, tuple) and len(result) > 0:
+                    result = result[0]
+                if isinstance(getattr(result, "error", None), MemoryError):
+                    # Can't pickle MemoryErrors. Should work around this later.
+                    result.error = "MemoryError"
+                    gc.collect()
                 output_queue.put(future)
             except (MemoryError, struct.error) as e:
                 future.result = None
-- 
2.43.0


From 1c04305ec44ea62d1d3e659a3a6e8fc6f078ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:47 +0000
Subject: [PATCH 21/31] fix: ensemble scores ignored how the metric averages
 over classes

---
 gama/postprocessing/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index aca1f5a..6efbba4 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -440,7 +440,9 @@ class EnsembleClassifier(Ensemble):
         class_predictions = self._one_hot_encoder.inverse_transform(
             prediction_to_validate.toarray()
         )
-        return self._metric.maximizable_score(self._y, class_predictions)
+        return self._metric.maximizable_score(
+            self._y, class_predictions, **self._metric.scorer._kwargs
+        )
 
     def predict(self, X):
         if self._metric.requires_probabilities:
-- 
2.43.0


From 2a34b59b7799f6f0a3f272378b587205e2838938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:36 +0000
Subject: [PATCH 22/31] fix: a target DataFrame with several columns or one row
 was not formatted to a series

The first column holds the targets (see Gama.fit), but DataFrame.squeeze returns the
DataFrame itself if it has several columns, and a scalar if it has a single value.
---
 gama/data_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index d547c4c..8194c4d 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -47,7 +47,7 @@ def format_y(
         y = np.argmax(y, axis=1) if y.shape[1] > 1 else y.squeeze()
     if y_type == pd.Series:
         if isinstance(y, pd.DataFrame):
-            y = y.squeeze()
+            y = y.iloc[:, 0]
         elif isinstance(y, np.ndarray):
             y = pd.Series(y)
     elif y_type == pd.DataFrame:
-- 
2.43.0


From 639e657bc9c6f4d1c8a04b606df64413ee8fbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:46 +0000
Subject: [PATCH 23/31] fix: predicting for an array failed after fitting a
 DataFrame with categorical columns

The array was given numbered columns, while the encoders look for the columns by the
names they had in training.
---
 gama/gama.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index f2cc1a6..fc49028 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -14,7 +14,6 @@ from typing import (
     Tuple,
     Optional,
     Dict,
-    Type,
     List,
     Callable,
     Any,
@@ -282,7 +281,7 @@ class Gama(ABC):
         self._y: Optional[pd.DataFrame] = None
         self._basic_encoding_pipeline: Optional[Pipeline] = None
         self._fixed_pipeline_extension: List[Tuple[str, TransformerMixin]] = []
-        self._inferred_dtypes: List[Type] = []
+        self._inferred_dtypes: pd.Series = pd.Series(dtype=object)
         self.model: object = None
         self._final_pop: List[Individual] = []
 
@@ -354,9 +353,9 @@ class Gama(ABC):
         if not isinstance(x, np.ndarray):
             raise TypeError(f"Expected x to be of type 'numpy.ndarray' not {type(x)}.")
 
-        x = pd.DataFrame(x)
-        for i, dtype in enumerate(self._inferred_dtypes):
-            x[i] = x[i].astype(dtype)
+        x = pd.DataFrame(x, columns=self._inferred_dtypes.index)
+        for column, dtype in self._inferred_dtypes.items():
+            x[column] = x[column].astype(dtype)
         return x
 
     def _prepare_for_prediction(
-- 
2.43.0


From e77d54894cdd5babe307f162b1e5b8e001456594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:17 +0000
Subject: [PATCH 24/31] fix: a target column with a single row was not
 formatted to a series

ndarray.squeeze makes an array with a single value zero-dimensional.
---
 gama/data_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 8194c4d..2c925a0 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -44,7 +44,7 @@ def format_y(
 
     if isinstance(y, np.ndarray) and y.ndim == 2:
         # Either indicator matrix or should be a vector.
-        y = np.argmax(y, axis=1) if y.shape[1] > 1 else y.squeeze()
+        y = np.argmax(y, axis=1) if y.shape[1] > 1 else y[:, 0]
     if y_type == pd.Series:
         if isinstance(y, pd.DataFrame):
             y = y.iloc[:, 0]
-- 
2.43.0


From 43a13e27c9994528748c1885050ca347dfa175eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:14 +0000
Subject: [PATCH 25/31] fix: exported scripts abbreviated encoders of many
 columns and were not runnable

---
 gama/utilities/export.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gama/utilities/export.py b/gama/utilities/export.py
index 8c92e03..d00dc73 100644
--- a/gama/utilities/export.py
+++ b/gama/utilities/export.py
@@ -1,4 +1,5 @@
 import copy
+import inspect
 from typing import Tuple, List, Set, Optional
 
 from sklearn.base import TransformerMixin
@@ -11,7 +12,21 @@ def transformers_to_str(transformers: List[TransformerMixin]) -> List[str]:
     for transformer in copies:
         if hasattr(transformer, "mapping"):
             transformer.mapping = None
-    return list(map(str, copies))
+    return list(map(format_transformer, copies))
+
+
+def format_transformer(transformer: TransformerMixin) -> str:
+    """Format a transformer with all its non-default parameters.
+
+    Unlike `str(transformer)`, never abbreviates long parameter values.
+    """
+    defaults = inspect.signature(type(transformer)).parameters
+    params = ", ".join(
+        f"{name}={value!r}"
+        for name, value in transformer.get_params(deep=False).items()
+        if repr(value) != repr(defaults[name].default)
+    )
+    return f"{type(transformer).__name__}({params})"
 
 
 def format_import(o: object) -> str:
@@ -60,7 +75,8 @@ def individual_to_python(
     """Generate code for the machine learning pipeline represented by `individual`."""
     imports, steps = imports_and_steps_for_individual(individual)
     if prepend_steps is not None:
-        steps = prepend_steps + steps
+        transformers = transformers_to_str([step for _, step in prepend_steps])
+        steps = list(zip([name for name, _ in prepend_steps], transformers)) + steps
         imports = imports.union({format_import(step) for _, step in prepend_steps})
     steps_str = ",\n".join([f"('{name}', {step})" for name, step in steps])
     pipeline = f"Pipeline([{steps_str}])"
-- 
2.43.0


From 1cc097152bac2cdd5cdaadb95c5df042671f1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:14 +0000
Subject: [PATCH 26/31] fix: string hyperparameters with quotes made exported
 scripts invalid

---
 gama/genetic_programming/components/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/components/terminal.py b/gama/genetic_programming/components/terminal.py
index d8c96c3..e7b4998 100644
--- a/gama/genetic_programming/components/terminal.py
+++ b/gama/genetic_programming/components/terminal.py
@@ -27,7 +27,7 @@ class Terminal(NamedTuple):
 
 def format_hyperparameter_value(value: object) -> str:
     if isinstance(value, str):
-        return f"'{value}'"  # Quoted
+        return repr(str(value))  # Quoted
     elif callable(value) and hasattr(value, "__name__"):
         return f"{value.__name__}"
     else:
-- 
2.43.0


From 5e08a5af3f68255fa8915f2147ee2716397169dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:14 +0000
Subject: [PATCH 27/31] fix: a pipeline with 'data' in a component's name could
 not be read from text

---
 gama/genetic_programming/components/primitive_node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gama/genetic_programming/components/primitive_node.py b/gama/genetic_programming/components/primitive_node.py
index 0a6671c..13362b8 100644
--- a/gama/genetic_programming/components/primitive_node.py
+++ b/gama/genetic_programming/components/primitive_node.py
@@ -85,10 +85,10 @@ class PrimitiveNode:
         # General form is
         # A(B(C(data[, C.param=value, ..])[, B.param=value, ..])[, A.param=value, ..])
         # below assumes that left parenthesis is never part of a parameter name or value
-        primitives = string.split("(")[:-1]
-        terminal_start_index = string.index(DATA_TERMINAL)
-        terminals_string = string[terminal_start_index + len(DATA_TERMINAL) :]
-        terminal_sets = terminals_string.split(")")[:-1]
+        *primitives, terminals_string = string.split("(")
+        if not terminals_string.startswith(DATA_TERMINAL):
+            raise ValueError(f"'{string}' does not start from '{DATA_TERMINAL}'.")
+        terminal_sets = terminals_string[len(DATA_TERMINAL) :].split(")")[:-1]
 
         last_node: Union[PrimitiveNode, str] = DATA_TERMINAL
         for primitive_string, terminal_set in zip(reversed(primitives), terminal_sets):
-- 
2.43.0


From 15d055fbc6490668ec210449df1cacada94a151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:14 +0000
Subject: [PATCH 28/31] fix: a pipeline with '=' in a hyperparameter value
 could not be read from text

---
 gama/genetic_programming/components/primitive_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/components/primitive_node.py b/gama/genetic_programming/components/primitive_node.py
index 13362b8..a9ad5b0 100644
--- a/gama/genetic_programming/components/primitive_node.py
+++ b/gama/genetic_programming/components/primitive_node.py
@@ -120,7 +120,7 @@ def find_primitive(primitive_set: dict, primitive_string: str) -> Primitive:
 
 def find_terminal(primitive_set: dict, terminal_string: str) -> Terminal:
     """Find the Terminal that matches `terminal_string` in `primitive_set`."""
-    term_type, _ = terminal_string.split("=")
+    term_type, _ = terminal_string.split("=", 1)
     for terminal in primitive_set[term_type]:
         if repr(terminal) == terminal_string:
             return terminal
-- 
2.43.0


From 965aaf354ad5eceefb74d6b9c48d1fcabf847988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:47 +0000
Subject: [PATCH 29/31] fix: async_ea lost its start candidates if they were
 given as the output list

---
 gama/search_methods/async_ea.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/search_methods/async_ea.py b/gama/search_methods/async_ea.py
index 113eedf..92c6f2d 100644
--- a/gama/search_methods/async_ea.py
+++ b/gama/search_methods/async_ea.py
@@ -110,6 +110,8 @@ def async_ea(
 
     max_pop_size = population_size
 
+    # `output` is emptied below, but may itself be the list of start candidates.
+    start_candidates = list(start_candidates)
     current_population = output
     n_evaluated_individuals = 0
 
-- 
2.43.0


From f6c1e31ba4d02a1032ea94a9fb222529a10f98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:57 +0000
Subject: [PATCH 30/31] fix: numeric or boolean labels of object dtype made
 every classifier evaluation fail

---
 gama/GamaClassifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 83ed8f5..48582dd 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -129,6 +129,7 @@ class GamaClassifier(Gama):
         # Unlabeled rows are removed first: they should not become a separate class,
         # nor be taken into account for the sampling of predictions.
         x, y = format_x_y(x, y)
+        y = y.infer_objects()  # scikit-learn rejects e.g. numbers of dtype object
         self._label_encoder = LabelEncoder().fit(y)
         if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-- 
2.43.0


From fea66f38c9a7db963fdb40889356a49cd4f6b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:47 +0000
Subject: [PATCH 31/31] fix: a regressor could not be fit on features and
 targets with different index labels

---
 gama/data_formatting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 2c925a0..18562c5 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -104,6 +104,10 @@ def format_x_y(
     if not isinstance(y, y_type):
         y = format_y(y, y_type)
 
+    if len(x) == len(y) and not y.index.equals(x.index):
+        # Rows match by position, but e.g. target encoders require matching indices.
+        y = y.set_axis(x.index)
+
     if remove_unlabeled:
         x, y = remove_unlabeled_rows(x, y)
 
-- 
2.43.0

