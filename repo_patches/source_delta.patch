From b60ee73081c3dfe8b73f25a73c916584bf6d26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 01/61] fix: take the first column of a DataFrame target, also
 with one row

fit documents that the first column of a DataFrame holds the target, but squeeze
returned the whole frame for more columns and a scalar for a single row.
---
 gama/data_formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 62628d4..d53218d 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -44,10 +44,10 @@ def format_y(
 
     if isinstance(y, np.ndarray) and y.ndim == 2:
         # Either indicator matrix or should be a vector.
-        y = np.argmax(y, axis=1) if y.shape[1] > 1 else y.squeeze()
+        y = np.argmax(y, axis=1) if y.shape[1] > 1 else y[:, 0]
     if y_type == pd.Series:
         if isinstance(y, pd.DataFrame):
-            y = y.squeeze()
+            y = y.iloc[:, 0]
         elif isinstance(y, np.ndarray):
             y = pd.Series(y)
     elif y_type == pd.DataFrame:
-- 
2.43.0


From 8003c322dda5fd336e5a379c1e71d5383be9994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 02/61] fix: drop unlabeled rows by position instead of by
 index label

x and y are paired by position. Selecting rows of x with a mask that carries the
index of y raised an IndexingError or dropped the wrong rows when their indices
differ (e.g. a DataFrame from train_test_split with a numpy target).
---
 gama/data_formatting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index d53218d..9942741 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -70,7 +70,9 @@ def remove_unlabeled_rows(
             f"Target vector has been found to contain {sum(unlabeled)} NaN-labels, "
             f"these rows will be ignored."
         )
-        x, y = x.loc[~unlabeled], y.loc[~unlabeled]
+        # Rows of x and y are paired by position, their indices need not match.
+        labeled = ~unlabeled.to_numpy()
+        x, y = x.loc[labeled], y.loc[labeled]
     return x, y
 
 
-- 
2.43.0


From dac12c2bda913a1380d708c25aa76e35236a6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:09 +0000
Subject: [PATCH 03/61] fix: offer replacement mutations when exactly one
 candidate exists

The documented rule is 'at least one' replaceable primitive or terminal. With
exactly one the mutation was never tried, and for pipelines with no other valid
mutation random_valid_mutation_in_place raised an IndexError.
---
 gama/genetic_programming/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index ad0457c..0c6bcea 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -153,7 +153,7 @@ def random_valid_mutation_in_place(
         replaceable_primitives = filter(
             lambda p: len(primitive_set[p._primitive.output]) > 1, individual.primitives
         )
-        if len(list(replaceable_primitives)) > 1:
+        if len(list(replaceable_primitives)) > 0:
             available_mutations.append(mut_replace_primitive)
 
         if max_length is None or n_primitives < max_length:
@@ -164,7 +164,7 @@ def random_valid_mutation_in_place(
         replaceable_terminals = filter(
             lambda t: len(primitive_set[t.identifier]) > 1, individual.terminals
         )
-        if len(list(replaceable_terminals)) > 1:
+        if len(list(replaceable_terminals)) > 0:
             available_mutations.append(mut_replace_terminal)
 
     mut_fn = random.choice(available_mutations)
-- 
2.43.0


From 4b09aa4874aed9c8f16a36e363a6721eea5a760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:33 +0000
Subject: [PATCH 04/61] fix: select parents on however many objectives there
 are

create_from_population assumed exactly two fitness values: with one metric and
regularize_length=False (a documented configuration) it raised an IndexError, and
with two metrics the pipeline length objective was ignored.
---
 gama/genetic_programming/selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index dd403de..690ae30 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -18,7 +18,9 @@ def create_from_population(
 ) -> List[Individual]:
     """Creates n new individuals based on the population."""
     offspring = []
-    metrics = [lambda ind: ind.fitness.values[0], lambda ind: ind.fitness.values[1]]
+    # One objective per fitness value, e.g. one metric without length regularization.
+    n_objectives = len(pop[0].fitness.values) if pop else 0
+    metrics = [lambda ind, i=i: ind.fitness.values[i] for i in range(n_objectives)]
     parent_pairs = nsga2_select(pop, n, metrics)
     for ind1, ind2 in parent_pairs:
         if random.random() < cxpb and len(_valid_crossover_functions(ind1, ind2)) > 0:
-- 
2.43.0


From 7a0bb3d5d024adcb4e8aa1a77bd4aaa534694697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:20 +0000
Subject: [PATCH 05/61] fix: respect max_pipeline_length in crossover

random_crossover guarantees the limit only for the first individual it returns,
OperatorSet.mate ignored the returned order and used its own first argument.
---
 gama/genetic_programming/operator_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 995f7c1..86cc59a 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -62,7 +62,10 @@ class OperatorSet:
     def mate(self, ind1: Individual, ind2: Individual, *args, **kwargs) -> Individual:
         def mate_with_log():
             new_individual1, new_individual2 = ind1.copy_as_new(), ind2.copy_as_new()
-            self._mate(new_individual1, new_individual2, *args, **kwargs)
+            # Only the first individual returned is guaranteed to respect max length.
+            new_individual1, new_individual2 = self._mate(
+                new_individual1, new_individual2, *args, **kwargs
+            )
             new_individual1.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
             return new_individual1
 
-- 
2.43.0


From 0495e27e0db86aebefb63b781290c6aeef7f7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:50 +0000
Subject: [PATCH 06/61] fix: mutate pipelines that exceed the maximum length

Shrinking to max_length uses functools.partial, which has no __name__, so mutating
e.g. a warm start individual longer than max_pipeline_length raised AttributeError.
---
 gama/genetic_programming/operator_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 86cc59a..fc02c98 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -75,7 +75,9 @@ class OperatorSet:
         def mutate_with_log():
             new_individual = ind.copy_as_new()
             mutator = self._mutate(new_individual, *args, **kwargs)
-            new_individual.meta = dict(parents=[ind._id], origin=mutator.__name__)
+            # The mutator is a `partial` when it shrinks an individual to max length.
+            origin = getattr(mutator, "func", mutator).__name__
+            new_individual.meta = dict(parents=[ind._id], origin=origin)
             return new_individual
 
         return self.try_until_new(mutate_with_log)
-- 
2.43.0


From 46f841cc6b7ec89d58f5b811f2a1f186b1c7d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:45 +0000
Subject: [PATCH 07/61] fix: do not modify the first configuration when merging
 two

---
 gama/configuration/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index 705ec26..7e449c3 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -120,6 +120,9 @@ def merge_configurations(c1: Dict, c2: Dict) -> Dict:
             merged[algorithm] = list(set(hparams + hparams2))
             continue  # Here the algorithm is actually a shared hyperparameter.
 
+        hparams = dict(hparams)  # Do not modify the configuration passed by the user.
+        merged[algorithm] = hparams
+
         for hyperparameter, values in hparams2.items():
             if hyperparameter not in hparams:
                 hparams[hyperparameter] = values
-- 
2.43.0


From 976fe66695b688162cb6949dc1323399ecac3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:44 +0000
Subject: [PATCH 08/61] fix: accept file extensions in any case when loading
 data

---
 gama/data_loading.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 246e867..5ca58c0 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -22,7 +22,7 @@ def sniff_csv_meta(file_path: str) -> Tuple[str, bool]:
 
 def load_csv_header(file_path: str, **kwargs) -> List[str]:
     """Return column names in the header, or 0...N if no header is present."""
-    if not file_path.endswith(".csv"):
+    if not file_path.lower().endswith(".csv"):
         raise ValueError(f"{file_path} is not a file with .csv extension.")
     sep, has_header = sniff_csv_meta(file_path)
     sep = kwargs.get("sep", sep)
@@ -117,9 +117,9 @@ def file_to_pandas(
     -------
     pd.DataFrame
     """
-    if file_path.endswith(".arff"):
+    if file_path.lower().endswith(".arff"):
         data = arff_to_pandas(file_path, encoding, **kwargs)
-    elif file_path.endswith(".csv"):
+    elif file_path.lower().endswith(".csv"):
         data = csv_to_pandas(file_path, **kwargs)
     else:
         raise ValueError("Only csv and arff files supported.")
-- 
2.43.0


From 1e3762f5ec51da6a1a2c4f480a4af11bc2843136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:23 +0000
Subject: [PATCH 09/61] fix: respect quotes and a missing final newline in a
 csv header

---
 gama/data_loading.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 5ca58c0..e4ec788 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -27,13 +27,13 @@ def load_csv_header(file_path: str, **kwargs) -> List[str]:
     sep, has_header = sniff_csv_meta(file_path)
     sep = kwargs.get("sep", sep)
 
-    with open(file_path, "r") as csv_file:
-        first_line = csv_file.readline()[:-1]
+    with open(file_path, "r", newline="") as csv_file:
+        first_row = next(csv.reader(csv_file, delimiter=sep))
 
     if has_header:
-        return first_line.split(sep)
+        return first_row
     else:
-        return [str(i) for i, _ in enumerate(first_line.split(sep))]
+        return [str(i) for i, _ in enumerate(first_row)]
 
 
 def csv_to_pandas(file_path: str, **kwargs) -> pd.DataFrame:
-- 
2.43.0


From 9bd39560b5a3d8219d590bc2d35db53ca6bcff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:48 +0000
Subject: [PATCH 10/61] fix: read arff attribute names in single quotes or
 followed by a tab

---
 gama/data_loading.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index e4ec788..ae4ccee 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -185,14 +185,15 @@ def load_feature_metadata_from_arff(file_path: str) -> Dict[str, str]:
         line = fh.readline()
         while not line.lower().startswith(data_header):
             if line.lower().startswith(attribute_indicator):
-                # arff uses a space separator, but allows spaces in
+                # arff uses whitespace as separator, but allows spaces in
                 # feature name (name must be quoted) and feature type (if nominal).
-                indicator, name_and_type = line.split(" ", 1)
-                if name_and_type.startswith('"'):
-                    name, data_type = name_and_type[1:].split('" ', 1)
-                    name = name
+                indicator, name_and_type = line.split(maxsplit=1)
+                quote = name_and_type[0]
+                if quote in ['"', "'"]:
+                    name, data_type = name_and_type[1:].split(quote, 1)
                 else:
-                    name, data_type = name_and_type.split(" ", 1)
+                    name, data_type = name_and_type.split(maxsplit=1)
+                data_type = data_type.strip()
                 attributes[name] = data_type
             line = fh.readline()[:-1]  # remove newline character
     return attributes
-- 
2.43.0


From 6ff182eddced62c33dc2b25f599c59758e8919ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 11/61] fix: pair features and target by position when their
 indices differ

---
 gama/gama.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index c06cbcb..c832488 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -535,7 +535,9 @@ class Gama(ABC):
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
         ):
-            x, self._y = format_x_y(x, y)
+            x, y = format_x_y(x, y)
+            # Rows are paired by position, but some encoders compare the indices.
+            self._y = y.set_axis(x.index)
             self._inferred_dtypes = x.dtypes
             is_classification = hasattr(self, "_label_encoder")
             self._x, self._basic_encoding_pipeline = basic_encoding(
-- 
2.43.0


From 09126c5e00026dfd3de62b70c302187951e5f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 12/61] fix: encode tables without textual column names to
 columns learners accept

---
 gama/utilities/preprocessing.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/preprocessing.py b/gama/utilities/preprocessing.py
index b2b6631..c1651d6 100644
--- a/gama/utilities/preprocessing.py
+++ b/gama/utilities/preprocessing.py
@@ -2,7 +2,7 @@ import logging
 from typing import Optional, Iterator, List, Tuple
 import category_encoders as ce
 import pandas as pd
-from sklearn.base import TransformerMixin
+from sklearn.base import BaseEstimator, TransformerMixin
 from sklearn.impute import SimpleImputer
 from sklearn.pipeline import Pipeline
 
@@ -42,6 +42,16 @@ def select_categorical_columns(
                 yield column
 
 
+class ColumnNamesToString(TransformerMixin, BaseEstimator):
+    """Convert the column names of a DataFrame to strings."""
+
+    def fit(self, X, y=None):
+        return self
+
+    def transform(self, X):
+        return X.rename(columns=str)
+
+
 def basic_encoding(
     x: pd.DataFrame, is_classification: bool
 ) -> Tuple[pd.DataFrame, TransformerMixin]:
@@ -61,6 +71,9 @@ def basic_encoding(
         ("ord-enc", ce.OrdinalEncoder(cols=ord_features, drop_invariant=True)),
         ("oh-enc", ce.OneHotEncoder(cols=leq_10_features, handle_missing="value")),
     ]
+    if leq_10_features and not all(isinstance(column, str) for column in x):
+        # The one-hot columns have a `str` name, scikit-learn does not allow a mix.
+        encoding_steps.append(("col-names", ColumnNamesToString()))
     encoding_pipeline = Pipeline(encoding_steps)
     x_enc = encoding_pipeline.fit_transform(x, y=None)  # Is this dangerous?
     return x_enc, encoding_pipeline
-- 
2.43.0


From a37b438000ba83e70b1c5399096f00dbdfc661f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:03 +0000
Subject: [PATCH 13/61] fix: export long transformer parameters in full

---
 gama/utilities/export.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/export.py b/gama/utilities/export.py
index 8c92e03..f173902 100644
--- a/gama/utilities/export.py
+++ b/gama/utilities/export.py
@@ -2,6 +2,7 @@ import copy
 from typing import Tuple, List, Set, Optional
 
 from sklearn.base import TransformerMixin
+from sklearn.utils._pprint import _changed_params
 from gama.genetic_programming.components import Individual
 
 
@@ -11,7 +12,14 @@ def transformers_to_str(transformers: List[TransformerMixin]) -> List[str]:
     for transformer in copies:
         if hasattr(transformer, "mapping"):
             transformer.mapping = None
-    return list(map(str, copies))
+
+    def to_str(transformer: TransformerMixin) -> str:
+        # `str(transformer)` abbreviates long values, e.g. for a long list of columns.
+        parameters = _changed_params(transformer).items()
+        arguments = ", ".join(f"{name}={value!r}" for name, value in parameters)
+        return f"{transformer.__class__.__name__}({arguments})"
+
+    return list(map(to_str, copies))
 
 
 def format_import(o: object) -> str:
-- 
2.43.0


From 91d9c25d44b703524565e1d9b8bd49dccc2bedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:05 +0000
Subject: [PATCH 14/61] fix: subsample the rows of the training part of each
 fold

---
 gama/genetic_programming/compilers/scikitlearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 312ee2e..af66708 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -105,9 +105,9 @@ def evaluate_pipeline(
                         sampler = ShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
                         )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train[train]
+                    full_train_x, full_train_y = x.iloc[train, :], y_train.iloc[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((subsample_idx, test))
+                    new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From 48eaa0f57e3003d385c3dae33ecea4c4932f99a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:44 +0000
Subject: [PATCH 15/61] fix: never return scores, predictions or estimators of
 a failed evaluation

---
 gama/genetic_programming/compilers/scikitlearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index af66708..4dc1114 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -80,7 +80,7 @@ def evaluate_pipeline(
 
     prediction, estimators = None, None
     # default score for e.g. timeout or failure
-    scores = tuple([float("-inf")] * len(metrics))
+    failed_scores = tuple([float("-inf")] * len(metrics))
     is_classification = is_classifier(pipeline)
 
     with stopit.ThreadingTimeout(timeout) as c_mgr:
@@ -144,7 +144,7 @@ def evaluate_pipeline(
         except KeyboardInterrupt:
             raise
         except Exception as e:
-            return prediction, scores, estimators, e
+            return None, failed_scores, None, e
 
     if c_mgr.state == c_mgr.INTERRUPTED:
         # A TimeoutException was raised, but not by the context manager.
@@ -154,7 +154,7 @@ def evaluate_pipeline(
     return (
         (prediction, tuple(scores), estimators, None)
         if c_mgr
-        else (prediction, scores, estimators, stopit.TimeoutException())
+        else (None, failed_scores, None, stopit.TimeoutException())
     )
 
 
-- 
2.43.0


From 4e9095e5afa5e1c1e69f12ff970033d479d6248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:14 +0000
Subject: [PATCH 16/61] fix: do not treat a missing target as a class label

---
 gama/GamaClassifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 5ae2749..77ea3b5 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -7,6 +7,7 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
+from gama.data_formatting import format_x_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
@@ -125,11 +126,11 @@ class GamaClassifier(Gama):
 
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
-        y_ = y.squeeze() if isinstance(y, pd.DataFrame) else y
-        self._label_encoder = LabelEncoder().fit(y_)
-        if any(isinstance(yi, str) for yi in y_):
+        x, y = format_x_y(x, y)  # A missing value is not a class label.
+        self._label_encoder = LabelEncoder().fit(y)
+        if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-            y = self._label_encoder.transform(y_)
+            y = self._label_encoder.transform(y)
         self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
-- 
2.43.0


From e04eab5aa4ffe23d6125471427330497d62bca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:14 +0000
Subject: [PATCH 17/61] fix: name every label once when scoring, as repeated
 labels weigh the average

---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 77ea3b5..0034426 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -138,7 +138,7 @@ class GamaClassifier(Gama):
         # data sets during pipeline evaluation.
         for m in self._metrics:
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
-                m.scorer._kwargs.update({"labels": y})
+                m.scorer._kwargs.update({"labels": np.unique(y)})
 
         super().fit(x, y, *args, **kwargs)
 
-- 
2.43.0


From 6962cba29e969f33e03ca34f2b83d34b0edf363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:14 +0000
Subject: [PATCH 18/61] fix: use the whole training part when a subsample is at
 least that large

---
 gama/genetic_programming/compilers/scikitlearn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 4dc1114..43c5a68 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -97,6 +97,9 @@ def evaluate_pipeline(
                 # This allows for performance comparisons across subsample levels.
                 new_splits = []
                 for train, test in splitter.split(x, y_train):
+                    if isinstance(subsample, int) and subsample >= len(train):
+                        new_splits.append((train, test))
+                        continue
                     if is_classification:
                         sampler = StratifiedShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
-- 
2.43.0


From 47e8888e8fa3f97e433128854288f549b984830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:54 +0000
Subject: [PATCH 19/61] fix: give every evaluation its own cache file

---
 gama/utilities/evaluation_library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index ad9ce85..97f2ce4 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -4,6 +4,7 @@ import logging
 from typing import Tuple, List, Optional, Union, Dict
 import pickle
 import os
+import uuid
 
 import numpy as np
 import pandas as pd
@@ -44,7 +45,9 @@ class Evaluation:
 
     def to_disk(self, directory: str) -> None:
         """Save Evaluation in the provided directory."""
-        self._cache_file = os.path.join(directory, f"{str(self.individual._id)}.pkl")
+        # An individual may be evaluated more than once, so its id is not sufficient.
+        filename = f"{str(self.individual._id)}_{uuid.uuid4().hex}.pkl"
+        self._cache_file = os.path.join(directory, filename)
         with open(self._cache_file, "wb") as fh:
             pickle.dump((self._estimators, self._predictions), fh)
         self._estimators, self._predictions = [], None
-- 
2.43.0


From 83c0de61026693fcabf5784faedbfcf6eb2aa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:54 +0000
Subject: [PATCH 20/61] fix: sample predictions at random when they can't be
 stratified

---
 gama/utilities/evaluation_library.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index 97f2ce4..36bc215 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -209,7 +209,14 @@ class EvaluationLibrary:
             )
         elif stratify is not None and n < len(stratify):
             splitter = StratifiedShuffleSplit(n_splits=1, train_size=n)
-            self._sample, _ = next(splitter.split(np.zeros(len(stratify)), stratify))
+            try:
+                self._sample, _ = next(
+                    splitter.split(np.zeros(len(stratify)), stratify)
+                )
+            except ValueError:
+                # E.g., there are fewer rows in, or left out of, the sample than classes
+                log.warning("Can't stratify the sample of predictions, use a random one")
+                self._sample = np.random.choice(len(stratify), size=n, replace=False)
         else:
             # Specified sample size exceeds size of predictions
             self._sample = None
-- 
2.43.0


From 34648fe1b95143ecd7794ff45a1efd529432c3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:37 +0000
Subject: [PATCH 21/61] fix: rank the second non-dominated front below the
 first

---
 gama/genetic_programming/nsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/nsga2.py b/gama/genetic_programming/nsga2.py
index 4def237..a00085c 100644
--- a/gama/genetic_programming/nsga2.py
+++ b/gama/genetic_programming/nsga2.py
@@ -139,7 +139,7 @@ def fast_non_dominated_sort(P: List[NSGAMeta]) -> List[List[NSGAMeta]]:
             for q in p.dominating:
                 q.domination_counter -= 1
                 if q.domination_counter == 0:
-                    q.rank = i + 1
+                    q.rank = i + 2
                     fronts[i + 1].append(q)
         i += 1
     return fronts
-- 
2.43.0


From 92cd6fcfefeb757602dcd5a11ea3b82860512012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:06 +0000
Subject: [PATCH 22/61] fix: keep the worker alive whatever a job returns

---
 gama/utilities/generic/async_evaluator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 5470f0d..aa761c5 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -354,12 +354,11 @@ def evaluator_daemon(
             try:
                 future = input_queue.get(block=False)
                 future.execute(default_parameters)
-                if future.result:
-                    if isinstance(future.result, tuple):
-                        result = future.result[0]
-                    else:
-                        result = future.result
-                    if isinstance(result.error, MemoryError):
+                if future.result is not None:
+                    result = future.result
+                    if isinstance(result, tuple) and len(result) > 0:
+                        result = result[0]
+                    if isinstance(getattr(result, "error", None), MemoryError):
                         # Can't pickle MemoryErrors. Should work around this later.
                         result.error = "MemoryError"
                         gc.collect()
-- 
2.43.0


From 60c2d2aae326867e9fa2a16064fa117a50af1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:06 +0000
Subject: [PATCH 23/61] fix: let arguments of a job take precedence over the
 shared defaults

---
 gama/utilities/generic/async_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index aa761c5..16f6111 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -51,7 +51,7 @@ class AsyncFuture:
         """Execute the function call `fn(*args, **kwargs)` and record results."""
         try:
             # Don't update self.kwargs, as it will be pickled back to the main process
-            kwargs = {**self.kwargs, **extra_kwargs}
+            kwargs = {**extra_kwargs, **self.kwargs}
             self.result = self.fn(*self.args, **kwargs)
         except Exception as e:
             self.exception = e
-- 
2.43.0


From 952efa39bbf1efc52a23cf833278147ce9d738cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 24/61] fix: continue evolution with new individuals while
 there are too few parents

---
 gama/search_methods/async_ea.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/async_ea.py b/gama/search_methods/async_ea.py
index b7d6bd6..d6d7e81 100644
--- a/gama/search_methods/async_ea.py
+++ b/gama/search_methods/async_ea.py
@@ -139,7 +139,11 @@ def async_ea(
                     # Increasing the number decreases the risk of lost compute time,
                     # but also increases information lag. An offspring created too
                     # early might miss out on a better parent.
-                    new_individual = ops.create(current_population, 1)[0]
+                    if len(current_population) > 2:
+                        new_individual = ops.create(current_population, 1)[0]
+                    else:
+                        # Too few individuals (e.g., failures) to select parents from.
+                        new_individual = ops.individual()
                     async_.submit(ops.evaluate, new_individual)
 
                 should_restart = restart_callback is not None and restart_callback()
-- 
2.43.0


From 8479bb5615d0866f700d5a03617ef39f4fdb27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 25/61] fix: search from a copy of the start candidates, as
 searches modify the list

---
 gama/gama.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index c832488..b034473 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -628,9 +628,9 @@ class Gama(ABC):
         if warm_start:
             if not all(isinstance(i, Individual) for i in warm_start):
                 raise TypeError("`warm_start` must be a list of Individual.")
-            pop = warm_start
+            pop = list(warm_start)
         elif warm_start is None and len(self._final_pop) > 0:
-            pop = self._final_pop
+            pop = list(self._final_pop)
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
-- 
2.43.0


From b8cf0039e4bf690a8a0f17e7e6addb706213b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:01 +0000
Subject: [PATCH 26/61] fix: return the highest rung when ASHA is interrupted
 at any time

---
 gama/search_methods/asha.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 66ceb83..1ac131c 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -193,18 +193,18 @@ def asha(
                     individual = future.result.individual
                     rung_individuals[rung].append((loss, individual))
                 start_new_job()
-
-            highest_rung_reached = max(rungs)
     except stopit.TimeoutException:
         log.info("ASHA ended due to timeout.")
-        reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
-        highest_rung_reached = max(reached_rungs)
-        if highest_rung_reached != max(rungs):
-            raise RuntimeWarning("Highest rung not reached.")
-    finally:
-        for rung, individuals in rung_individuals.items():
-            log.info(f"[{len(individuals)}] {rung}")
-        return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
+    except KeyboardInterrupt:
+        log.info("ASHA ended due to keyboard interrupt.")
+
+    for rung, individuals in rung_individuals.items():
+        log.info(f"[{len(individuals)}] {rung}")
+    reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
+    highest_rung_reached = max(reached_rungs, default=max(rungs))
+    if highest_rung_reached != max(rungs):
+        log.warning("Highest rung not reached.")
+    return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
 
 
 def evaluate_on_rung(individual, rung, max_rung, evaluate_individual, *args, **kwargs):
-- 
2.43.0


From 38e67786db215180ebe6acf7c416c5414ce4bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:59 +0000
Subject: [PATCH 27/61] fix: keep resource types equal when there are fewer
 samples than maximum_resource

---
 gama/search_methods/asha.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 1ac131c..dfdf550 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -68,10 +68,11 @@ class AsynchronousSuccessiveHalving(BaseSearch):
         if set_max is not None and len(y) < set_max:
             # todo: take into account the evaluation procedure as well.
             logging.warning(
-                f"`maximum_resource` was set to {set_max}, but the dataset only"
-                f"contains {len(y)} samples. Reverting to default (1.0) instead."
+                f"`maximum_resource` was set to {set_max}, but the dataset only "
+                f"contains {len(y)} samples. Using all samples instead."
             )
-            self._hyperparameters["maximum_resource"] = (None, default)
+            # The minimum and maximum resource must be of the same type.
+            self._hyperparameters["maximum_resource"] = (len(y), default)
 
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
-- 
2.43.0


From 1ce59bceac63eaaf1aaf15c5e201dedde37cf6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:59 +0000
Subject: [PATCH 28/61] fix: do not add a second full rung to ASHA due to
 rounding

---
 gama/search_methods/asha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index dfdf550..f12d8ed 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -129,8 +129,9 @@ def asha(
     # Note that here we index the rungs by all possible rungs (0..ceil(log_eta(R/r))),
     # and ignore the first minimum_early_stopping_rate rungs.
     # This contrasts the paper where rung 0 refers to the first used one.
+    # Rounding avoids an extra rung due to floating point error, e.g. log(125, 5) > 3.
     max_rung = math.ceil(
-        math.log(maximum_resource / minimum_resource, reduction_factor)
+        round(math.log(maximum_resource / minimum_resource, reduction_factor), 10)
     )
     rungs = range(minimum_early_stopping_rate, max_rung + 1)
     rung_resources = {
-- 
2.43.0


From b8ac9afe2b94b7e60f5d61c0d503cdf35b3984b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:17 +0000
Subject: [PATCH 29/61] fix: return the fitted classifier from fit, as the base
 class does

---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 0034426..a40c8a1 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -140,7 +140,7 @@ class GamaClassifier(Gama):
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
                 m.scorer._kwargs.update({"labels": np.unique(y)})
 
-        super().fit(x, y, *args, **kwargs)
+        return super().fit(x, y, *args, **kwargs)
 
     def _encode_labels(self, y):
         self._label_encoder = LabelEncoder().fit(y)
-- 
2.43.0


From 86f3236dfe6f9d8d3346b9d48adbff96e63c2017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:21 +0000
Subject: [PATCH 30/61] fix: score predictions with the averaging the metric is
 named after

---
 gama/utilities/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 2c4e21d..ddd4d61 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -54,7 +54,11 @@ class Metric:
                 "Not sure which type of metric this is. Please raise an issue."
             )
 
-        self.score = self.scorer._score_func
+        # Any labels added to the scorer later are specific to a dataset.
+        self._score_kwargs = dict(self.scorer._kwargs)
+
+    def score(self, *args, **kwargs) -> float:
+        return self.scorer._score_func(*args, **{**self._score_kwargs, **kwargs})
 
     def __call__(self, *args, **kwargs) -> float:
         return self.scorer(*args, **kwargs)
-- 
2.43.0


From 87b4bf357e501a2c38496ae28b651c21a9977e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 31/61] fix: accept an iterator of metrics

---
 gama/utilities/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index ddd4d61..0055797 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -75,13 +75,13 @@ def scoring_to_metric(
     if isinstance(scoring, Metric):
         return (scoring,)
 
-    if isinstance(scoring, Iterable) and all(
-        isinstance(scorer, (Metric, str)) for scorer in scoring
-    ):
-        converted_metrics = [
-            scorer if isinstance(scorer, Metric) else Metric(scorer)
-            for scorer in scoring
-        ]
-        return tuple(converted_metrics)
+    if isinstance(scoring, Iterable):
+        scoring = tuple(scoring)  # an iterator can be consumed only once
+        if all(isinstance(scorer, (Metric, str)) for scorer in scoring):
+            converted_metrics = [
+                scorer if isinstance(scorer, Metric) else Metric(scorer)
+                for scorer in scoring
+            ]
+            return tuple(converted_metrics)
 
     raise TypeError("scoring must be str, Metric or Iterable (of str or Metric).")
-- 
2.43.0


From a32525762c70f22da50a77ad624151e466fa34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 32/61] fix: downsample the true labels of a classifier
 ensemble only once

---
 gama/postprocessing/ensemble.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index ef18e58..aca1f5a 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -423,8 +423,6 @@ class EnsembleClassifier(Ensemble):
             self._y = self._one_hot_encoder.transform(
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
-            if self._prediction_sample is not None:
-                self._y = self._y[self._prediction_sample]
         else:
 
             def one_hot_encode_predictions(predictions):
-- 
2.43.0


From 40b09cc3d0ca47a1de660f7b207d852407ffc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 33/61] fix: allow ensembles to be pickled, without changing
 them

---
 gama/postprocessing/ensemble.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index aca1f5a..faae345 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -367,19 +367,21 @@ class Ensemble(object):
         return _str_
 
     def __getstate__(self):
+        state = self.__dict__.copy()
         if self._shrink_on_pickle:
             log.info(
                 "Shrinking before pickle because shrink_on_pickle is True."
                 "Removing anything that is not needed for predict-functionality."
                 "Functionality to expand ensemble after unpickle is not available."
             )
-            self._models = None
-            self._model_library = None
+            state["_models"] = None
+            state["_model_library"] = None
+            state["evaluation_library"] = None
             # self._y_true can not be removed as it is needed to ensure proper
             # dimensionality of predictions.
             # Alternatively, one could just save the number of classes instead.
 
-        return self.__dict__.copy()
+        return state
 
 
 def fit_and_weight(args):
@@ -424,11 +426,10 @@ class EnsembleClassifier(Ensemble):
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
         else:
+            self._prediction_transformation = self._one_hot_encode_predictions
 
-            def one_hot_encode_predictions(predictions):
-                return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
-
-            self._prediction_transformation = one_hot_encode_predictions
+    def _one_hot_encode_predictions(self, predictions):
+        return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
 
     def _ensemble_validation_score(self, prediction_to_validate=None):
         if prediction_to_validate is None:
-- 
2.43.0


From d90725912b485a6224362eb0e7af454179753c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:16 +0000
Subject: [PATCH 34/61] fix: consider all models and predictions for an
 ensemble when not limited

---
 gama/postprocessing/ensemble.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index faae345..4aafa01 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -57,8 +57,8 @@ class EnsemblePostProcessing(BasePostProcessing):
             ensemble_size=(ensemble_size, 25),
             metric=(None, None),
             evaluation_library=(None, None),
-            hillclimb_size=(hillclimb_size, 10_000),
-            max_models=(max_models, 200),
+            hillclimb_size=(hillclimb_size, None),
+            max_models=(max_models, None),
         )
         self._ensemble: Optional[Ensemble] = None
 
@@ -206,7 +206,10 @@ class Ensemble(object):
     def model_library(self):
         if not self._model_library:
             self._model_library = []
-            for evaluation in self.evaluation_library.n_best(self._use_top_n_only):
+            n_models = self._use_top_n_only
+            if n_models is None:
+                n_models = len(self.evaluation_library.top_evaluations)
+            for evaluation in self.evaluation_library.n_best(n_models):
                 predictions = evaluation.predictions
                 if self._prediction_transformation:
                     predictions = self._prediction_transformation(predictions)
@@ -496,10 +499,16 @@ def build_fit_ensemble(
     start_build = time.time()
 
     log.debug("Building ensemble.")
+    # The library only has the models and predictions that should be considered.
+    use_all = dict(downsample_to=None, use_top_n_only=None)
     if metric.task_type == MetricType.REGRESSION:
-        ensemble = EnsembleRegressor(metric, y, evaluation_library)  # type: Ensemble
+        ensemble = EnsembleRegressor(
+            metric, y, evaluation_library, **use_all
+        )  # type: Ensemble
     elif metric.task_type == MetricType.CLASSIFICATION:
-        ensemble = EnsembleClassifier(metric, y, evaluation_library=evaluation_library)
+        ensemble = EnsembleClassifier(
+            metric, y, evaluation_library=evaluation_library, **use_all
+        )
         ensemble._label_encoder = encoder
     else:
         raise ValueError(f"Unknown metric task type {metric.task_type}")
-- 
2.43.0


From 5cc12982faa0ee705201030d8ab5e2d3f454e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 35/61] fix: keep several evaluations of one individual apart
 in an ensemble

---
 gama/postprocessing/ensemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 4aafa01..1f6de37 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -1,4 +1,3 @@
-import uuid
 import copy
 import logging
 import random
@@ -200,7 +199,7 @@ class Ensemble(object):
         self._internal_score = -float("inf")
         self._fit_models = None
         self._maximize = True
-        self._models: Dict[uuid.UUID, Tuple[Evaluation, int]] = {}
+        self._models: Dict[int, Tuple[Evaluation, int]] = {}
 
     @property
     def model_library(self):
@@ -265,9 +264,10 @@ class Ensemble(object):
 
     def _add_model(self, model, add_weight=1):
         """Add a specific model to the ensemble or increases its weight."""
-        model, weight = self._models.pop(model.individual._id, (model, 0))
+        # An individual may have been evaluated more than once, so its id won't do.
+        _, weight = self._models.pop(id(model), (model, 0))
         new_weight = weight + add_weight
-        self._models[model.individual._id] = (model, new_weight)
+        self._models[id(model)] = (model, new_weight)
         log.debug(f"Weight {model.individual.short_name('>')} set to {new_weight}.")
 
     def expand_ensemble(self, n: int):
-- 
2.43.0


From 34016b60468fe707fd92c80d2a4632c7dc7fff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 36/61] fix: predict for an array as for a frame with the same
 values

---
 gama/gama.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index b034473..625b5ec 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -14,7 +14,6 @@ from typing import (
     Tuple,
     Optional,
     Dict,
-    Type,
     List,
     Callable,
     Any,
@@ -26,6 +25,7 @@ import warnings
 import pandas as pd
 import numpy as np
 import stopit
+from pandas.core.dtypes.common import is_numeric_dtype
 from sklearn.base import TransformerMixin
 from sklearn.pipeline import Pipeline
 
@@ -282,7 +282,7 @@ class Gama(ABC):
         self._y: Optional[pd.DataFrame] = None
         self._basic_encoding_pipeline: Optional[Pipeline] = None
         self._fixed_pipeline_extension: List[Tuple[str, TransformerMixin]] = []
-        self._inferred_dtypes: List[Type] = []
+        self._inferred_dtypes: pd.Series = pd.Series(dtype=object)
         self.model: object = None
         self._final_pop: List[Individual] = []
 
@@ -355,8 +355,13 @@ class Gama(ABC):
             raise TypeError(f"Expected x to be of type 'numpy.ndarray' not {type(x)}.")
 
         x = pd.DataFrame(x)
-        for i, dtype in enumerate(self._inferred_dtypes):
-            x[i] = x[i].astype(dtype)
+        x.columns = self._inferred_dtypes.index
+        for column, dtype in self._inferred_dtypes.items():
+            if is_numeric_dtype(dtype):
+                # New values may be fractional or missing even if there were none in fit
+                x[column] = pd.to_numeric(x[column])
+            else:
+                x[column] = x[column].astype(dtype)
         return x
 
     def _prepare_for_prediction(
-- 
2.43.0


From d947835ce1704686426c32df4ecbbdbc9bc19bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:21 +0000
Subject: [PATCH 37/61] fix: score probabilities for roc_auc and when not all
 labels occur

---
 gama/GamaClassifier.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index a40c8a1..84f6638 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -7,7 +7,7 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
-from gama.data_formatting import format_x_y
+from gama.data_formatting import format_x_y, format_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
@@ -124,6 +124,19 @@ class GamaClassifier(Gama):
         x = self._prepare_for_prediction(x)
         return self._predict_proba(x)
 
+    def score(self, x, y):
+        """Should use base class documentation."""
+        metric = self._metrics[0]
+        if not metric.requires_probabilities:
+            return super().score(x, y)
+        if isinstance(y, np.ndarray):
+            y = format_y(y)  # e.g., an indicator matrix
+        probabilities = self.predict_proba(x)
+        if metric.name == "roc_auc" and probabilities.shape[1] == 2:
+            probabilities = probabilities[:, 1]
+        # Not every label known from `fit` needs to be in y.
+        return metric.score(y, probabilities, labels=self._label_encoder.classes_)
+
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
         x, y = format_x_y(x, y)  # A missing value is not a class label.
-- 
2.43.0


From 7cc4623d02658c3cd57b090fdbfa78dca8796a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:34 +0000
Subject: [PATCH 38/61] fix: build label ensembles when another metric needs
 probabilities

---
 gama/postprocessing/ensemble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 1f6de37..9f28f6b 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -432,6 +432,10 @@ class EnsembleClassifier(Ensemble):
             self._prediction_transformation = self._one_hot_encode_predictions
 
     def _one_hot_encode_predictions(self, predictions):
+        if predictions.ndim == 2 and predictions.shape[1] > 1:
+            # Class probabilities, because one of the other metrics requires them.
+            labels = self._one_hot_encoder.categories_[0]
+            predictions = labels[predictions.argmax(axis=1)]
         return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
 
     def _ensemble_validation_score(self, prediction_to_validate=None):
-- 
2.43.0


From b9a8390000fd53e6c6357d5c6db541c945547f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:34 +0000
Subject: [PATCH 39/61] fix: check arguments before creating the output
 directory

A rejected scoring, search space, store or pipeline length left a directory and
an open log file behind, and a rejected time or n_jobs removed an (empty) directory
that was there before.
---
 gama/gama.py | 53 ++++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 625b5ec..485ef98 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -197,6 +197,27 @@ class Gama(ABC):
             else:
                 raise ValueError(f"Unknown value for {preset=}'")
 
+        # Check arguments before the output directory is created.
+        if max_total_time is None or max_total_time <= 0:
+            raise ValueError(
+                f"Expect positive int for max_total_time, got {max_total_time}."
+            )
+        if max_eval_time is not None and max_eval_time <= 0:
+            raise ValueError(
+                f"Expect None or positive int for max_eval_time, got {max_eval_time}."
+            )
+        if n_jobs is not None and (n_jobs < -1 or n_jobs == 0):
+            raise ValueError(f"n_jobs should be -1 or positive int but is {n_jobs}.")
+        if store not in {"nothing", "models", "logs", "all"}:
+            raise ValueError(f"Unknown value for {store=}.")
+        self._metrics: Tuple[Metric, ...] = scoring_to_metric(scoring)
+        self._pset = pset_from_config(search_space)[0]
+        if DATA_TERMINAL not in self._pset and (max_pipeline_length or 1) > 1:
+            raise ValueError(
+                f"`max_pipeline_length` can't be {max_pipeline_length} "
+                "because there are no preprocessing steps in the search space."
+            )
+
         if not output_directory:
             output_directory = f"gama_{str(uuid.uuid4())}"
         self.output_directory = os.path.abspath(os.path.expanduser(output_directory))
@@ -235,17 +256,6 @@ class Gama(ABC):
             n_jobs = multiprocessing.cpu_count()
             log.debug("n_jobs set to use all %d cores.", n_jobs)
 
-        err = ""
-        if max_total_time is None or max_total_time <= 0:
-            err = f"Expect positive int for max_total_time, got {max_total_time}."
-        if max_eval_time is not None and max_eval_time <= 0:
-            err = f"Expect None or positive int for max_eval_time, got {max_eval_time}."
-        if n_jobs < -1 or n_jobs == 0:
-            err = f"n_jobs should be -1 or positive int but is {n_jobs}."
-        if err:
-            self.cleanup("all")
-            raise ValueError(err)
-
         setattr(
             AsyncEvaluator,
             "__init__",
@@ -268,7 +278,6 @@ class Gama(ABC):
 
         self._max_eval_time = max_eval_time
         self._time_manager = TimeKeeper(max_total_time)
-        self._metrics: Tuple[Metric, ...] = scoring_to_metric(scoring)
         self._regularize_length = regularize_length
         self._search_method: BaseSearch = search
         self._post_processing = post_processing
@@ -301,20 +310,12 @@ class Gama(ABC):
         e = search.logger(os.path.join(self.output_directory, "evaluations.log"))
         self.evaluation_completed(e.log_evaluation)
 
-        self._pset, parameter_checks = pset_from_config(search_space)
-
-        if DATA_TERMINAL not in self._pset:
-            if max_pipeline_length is None:
-                log.info(
-                    "Setting `max_pipeline_length` to 1 "
-                    "because there are no preprocessing steps in the search space."
-                )
-                max_pipeline_length = 1
-            elif max_pipeline_length > 1:
-                raise ValueError(
-                    f"`max_pipeline_length` can't be {max_pipeline_length} "
-                    "because there are no preprocessing steps in the search space."
-                )
+        if DATA_TERMINAL not in self._pset and max_pipeline_length is None:
+            log.info(
+                "Setting `max_pipeline_length` to 1 "
+                "because there are no preprocessing steps in the search space."
+            )
+            max_pipeline_length = 1
         max_start_length = 3 if max_pipeline_length is None else max_pipeline_length
         self._operator_set = OperatorSet(
             mutate=partial(  # type: ignore #https://github.com/python/mypy/issues/1484
-- 
2.43.0


From eb7ceed2130cbb138d319911dba283b5db82daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:34 +0000
Subject: [PATCH 40/61] fix: use one job by default when there is only one
 processor

---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 485ef98..94b0ce1 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -250,7 +250,7 @@ class Gama(ABC):
         log.info(f"INIT:{self.__class__.__name__}({arguments})")
 
         if n_jobs is None:
-            n_jobs = multiprocessing.cpu_count() // 2
+            n_jobs = max(1, multiprocessing.cpu_count() // 2)
             log.debug("n_jobs defaulted to %d.", n_jobs)
         elif n_jobs == -1:
             n_jobs = multiprocessing.cpu_count()
-- 
2.43.0


From ece0fd7c7afb42a851dd7cc29d5d92d9106f97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:35 +0000
Subject: [PATCH 41/61] fix: accept an iterator of metrics for a classifier

---
 gama/GamaClassifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 84f6638..d253229 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -10,7 +10,7 @@ from .gama import Gama
 from gama.data_formatting import format_x_y, format_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
-from gama.utilities.metrics import scoring_to_metric
+from gama.utilities.metrics import Metric, scoring_to_metric
 
 
 class GamaClassifier(Gama):
@@ -36,6 +36,8 @@ class GamaClassifier(Gama):
             }
 
         self._label_encoder = None
+        if not isinstance(scoring, (str, Metric)):
+            scoring = self._metrics  # an iterator can be consumed only once
         super().__init__(*args, search_space=search_space, scoring=scoring, **kwargs)
 
     def _predict(self, x: pd.DataFrame):
-- 
2.43.0


From 9631003236dd6e771b7e4670d3e7caa96ac82976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:39 +0000
Subject: [PATCH 42/61] fix: read a report from the logs of the current version

The INIT line contained the search space, which the report could not parse.
Several metrics, a single metric without length and Metric objects could not be
read either, and regularize_length=False was taken to be True.
---
 gama/gama.py               | 10 +++++++++-
 gama/logging/GamaReport.py | 37 +++++++++++++++++++++++++++++--------
 gama/utilities/metrics.py  |  3 +++
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 94b0ce1..7e53249 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -243,7 +243,15 @@ class Gama(ABC):
             [
                 f"{k}={v}"
                 for (k, v) in locals().items()
-                if k not in ["self", "config", "log_file", "log_handler", "log_format"]
+                if k
+                not in [
+                    "self",
+                    "config",
+                    "search_space",
+                    "log_file",
+                    "log_handler",
+                    "log_format",
+                ]
             ]
         )
         log.info(f"Using GAMA version {__version__}.")
diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 56e6af4..81566cc 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -1,4 +1,5 @@
 import os
+import re
 from datetime import datetime, timedelta
 from typing import List, Tuple, Dict
 
@@ -57,8 +58,9 @@ class GamaReport:
                 start_time = end_time - timedelta(seconds=d)
                 self.phases.append((phase, algorithm, start_time, d))
 
-        self.metrics = self.hyperparameters["scoring"].split(",")
-        if self.hyperparameters["regularize_length"]:
+        # Several metrics are logged as a collection, e.g., "('accuracy', 'f1_macro')"
+        self.metrics = re.findall(r"\w+", self.hyperparameters["scoring"])
+        if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
         self.incomplete = len(self.phases) < 3
@@ -86,7 +88,8 @@ class GamaReport:
             df = df.rename(columns=dict(t_start="start", t_wallclock="duration"))
 
             def tuple_to_metrics(tuple_str):
-                return pd.Series([float(value) for value in tuple_str[1:-1].split(",")])
+                values = tuple_str[1:-1].split(",")
+                return pd.Series([float(value) for value in values if value.strip()])
 
             df[self.metrics] = df.score.apply(tuple_to_metrics)
             df.start = pd.to_datetime(
@@ -129,8 +132,26 @@ class GamaReport:
 # new
 def init_to_hps(init_line: str) -> Dict[str, str]:
     all_arguments = init_line.split("(", maxsplit=1)[-1].rsplit(")", maxsplit=1)[0]
-    # A little hackery to get nested configurations (e.g. of search) to work
-    # only supports one nested level - will do proper parsing later
-    for token in ["()", "(", ")", ",,"]:
-        all_arguments = all_arguments.replace(token, ",")
-    return dict(hp.split("=") for hp in all_arguments.split(","))
+    hyperparameters = {}
+    for argument in _split_arguments(all_arguments):
+        name, value = argument.split("=", maxsplit=1)
+        nested = re.fullmatch(r"(\w+)\((.*)\)", value)
+        if nested and name in ["search", "post_processing"]:
+            value, nested_arguments = nested.groups()
+            for nested_argument in _split_arguments(nested_arguments):
+                nested_name, nested_value = nested_argument.split("=", maxsplit=1)
+                hyperparameters[nested_name] = nested_value
+        hyperparameters[name] = value
+    return hyperparameters
+
+
+def _split_arguments(arguments: str) -> List[str]:
+    """Split at each comma which is not within brackets."""
+    parts, depth = [""], 0
+    for character in arguments:
+        depth += (character in "([{") - (character in ")]}")
+        if character == "," and depth == 0:
+            parts.append("")
+        else:
+            parts[-1] += character
+    return [part for part in parts if part]
diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 0055797..1bd0ffe 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -57,6 +57,9 @@ class Metric:
         # Any labels added to the scorer later are specific to a dataset.
         self._score_kwargs = dict(self.scorer._kwargs)
 
+    def __repr__(self) -> str:
+        return self.name
+
     def score(self, *args, **kwargs) -> float:
         return self.scorer._score_func(*args, **{**self._score_kwargs, **kwargs})
 
-- 
2.43.0


From d58cc78ce08b3e3b200eba2c114582dae2d92fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:39 +0000
Subject: [PATCH 43/61] fix: quote values in the evaluation log that contain
 separators or newlines

---
 gama/logging/evaluation_logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 19df488..1798bb7 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -1,3 +1,4 @@
+import csv
 from datetime import datetime
 from functools import partial
 import operator
@@ -67,8 +68,10 @@ class EvaluationLogger:
 
     def log_line(self, values: Iterable[str]) -> None:
         """Appends `values` as a row of separated values to the file."""
-        with open(self._file_path, "a") as evaluations:
-            evaluations.write(self._sep.join(values) + "\n")
+        with open(self._file_path, "a", newline="") as evaluations:
+            # Values (e.g., error messages) may contain separators, quotes or newlines.
+            writer = csv.writer(evaluations, delimiter=self._sep, lineterminator="\n")
+            writer.writerow(values)
 
     def log_evaluation(self, evaluation) -> None:
         values = [getter(evaluation) for getter in self.fields.values()]
-- 
2.43.0


From bb03651f7333414c6fb962c3d433d3193ed5c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:30 +0000
Subject: [PATCH 44/61] fix: update the phases of a report, not only its
 evaluations

Messages of others that contain INIT: or STOP: are no longer parsed either, and
evaluations are numbered the same whether or not they were read at once.
---
 gama/logging/GamaReport.py | 42 +++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 81566cc..08458a9 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -41,39 +41,45 @@ class GamaReport:
         self.individuals: Dict[str, Individual] = {}
         self.strict = strict
 
-        # Parse initialization/progress information from gama.log
-        with open(os.path.join(log_directory, "gama.log")) as fh:
+        self._update_progress()
+
+        # Several metrics are logged as a collection, e.g., "('accuracy', 'f1_macro')"
+        self.metrics = re.findall(r"\w+", self.hyperparameters["scoring"])
+        if self.hyperparameters["regularize_length"] == "True":
+            self.metrics += ["length"]
+
+        self.update(force=True)  # updates self.evaluations and self.method_data
+        # [ ] Dashboard -- how point to directory?? => #97
+
+        self.search_method = self.hyperparameters["search"]
+
+    def _update_progress(self) -> None:
+        """Parse initialization/progress information from gama.log"""
+        with open(os.path.join(self._log_directory, "gama.log")) as fh:
             gama_lines = fh.readlines()
 
+        self.phases = []
         for line in gama_lines:
-            if "INIT:" in line:
+            if " - gama.gama] INIT:" in line:
                 self.hyperparameters = init_to_hps(line)
-            if "STOP:" in line:
+            if " - gama.utilities.generic.timekeeper] STOP: " in line:
                 time_and_place, activity = line.split(" STOP: ")
                 timestamp, place = time_and_place[1:-1].split(" - ")
                 end_time = datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S,%f")
-                print(activity)
                 phase, algorithm, _, duration = activity.split(" ")
                 d = float(duration[:-3])  # e.g. "0.1300s.\n"
                 start_time = end_time - timedelta(seconds=d)
                 self.phases.append((phase, algorithm, start_time, d))
-
-        # Several metrics are logged as a collection, e.g., "('accuracy', 'f1_macro')"
-        self.metrics = re.findall(r"\w+", self.hyperparameters["scoring"])
-        if self.hyperparameters["regularize_length"] == "True":
-            self.metrics += ["length"]
-
         self.incomplete = len(self.phases) < 3
-        self.update(force=True)  # updates self.evaluations and self.method_data
-        # [ ] Dashboard -- how point to directory?? => #97
-
-        self.search_method = self.hyperparameters["search"]
 
     def update(self, force: bool = False) -> bool:
         if not force and not self.incomplete:
             return False
+        self._update_progress()
 
-        with open(os.path.join(self._log_directory, "evaluations.log"), "r") as fh:
+        with open(
+            os.path.join(self._log_directory, "evaluations.log"), "r", newline=""
+        ) as fh:
             header = fh.readline()[:-1]
             self._last_tell = max(self._last_tell, fh.tell())
             fh.seek(self._last_tell)
@@ -108,7 +114,9 @@ class GamaReport:
                 self.evaluations = df
             else:
                 df["n"] += self.evaluations.n.max() + 1
-                self.evaluations = pd.concat([self.evaluations, df])
+                self.evaluations = pd.concat(
+                    [self.evaluations, df], ignore_index=True
+                )
             df = self.evaluations
 
             search_start = df.start.min()
-- 
2.43.0


From 0b455cdf97890208500a5242d464a8e092e561aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:19 +0000
Subject: [PATCH 45/61] fix: give each instance its own workers and limits

Creating a Gama object changed n_jobs, memory limit and memory log of all others,
and each one added a layer of defaults, until the recursion limit was reached.
---
 gama/gama.py                              | 23 ++++++++++++-----------
 gama/utilities/generic/async_evaluator.py | 15 +++++++++++++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 7e53249..69081ce 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -1,7 +1,7 @@
 import shutil
 from abc import ABC
 from collections import defaultdict
-from functools import partial, partialmethod
+from functools import partial
 import logging
 import multiprocessing
 import os
@@ -60,7 +60,10 @@ from gama.postprocessing import (
     BasePostProcessing,
     EnsemblePostProcessing,
 )
-from gama.utilities.generic.async_evaluator import AsyncEvaluator
+from gama.utilities.generic.async_evaluator import (
+    AsyncEvaluator,
+    set_evaluator_defaults,
+)
 from gama.utilities.metrics import Metric
 
 # Avoid stopit from logging warnings every time a pipeline evaluation times out
@@ -264,16 +267,12 @@ class Gama(ABC):
             n_jobs = multiprocessing.cpu_count()
             log.debug("n_jobs set to use all %d cores.", n_jobs)
 
-        setattr(
-            AsyncEvaluator,
-            "__init__",
-            partialmethod(
-                AsyncEvaluator.__init__,
-                n_workers=n_jobs,
-                memory_limit_mb=max_memory_mb,
-                logfile=os.path.join(self.output_directory, "memory.log"),
-            ),
+        self._evaluator_settings = dict(
+            n_workers=n_jobs,
+            memory_limit_mb=max_memory_mb,
+            logfile=os.path.join(self.output_directory, "memory.log"),
         )
+        set_evaluator_defaults(**self._evaluator_settings)
 
         if max_eval_time is None:
             max_eval_time = round(0.1 * max_total_time)
@@ -650,6 +649,8 @@ class Gama(ABC):
 
         deadline = time.time() + timeout
 
+        # Other instances may have been created since this one.
+        set_evaluator_defaults(**self._evaluator_settings)
         evaluate_pipeline = partial(
             gama.genetic_programming.compilers.scikitlearn.evaluate_pipeline,
             x=self._x,
diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 16f6111..6cdcf84 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -17,6 +17,7 @@ but it has issues:
 
 import contextlib
 import datetime
+import functools
 import gc
 import logging
 import multiprocessing
@@ -323,6 +324,20 @@ class AsyncEvaluator:
                 self._start_worker_process()
 
 
+def set_evaluator_defaults(**defaults) -> None:
+    """Use `defaults` for arguments not provided when creating an AsyncEvaluator.
+
+    Replaces any defaults which were set previously.
+    """
+    init = getattr(AsyncEvaluator.__init__, "__wrapped__", AsyncEvaluator.__init__)
+
+    @functools.wraps(init)
+    def init_with_defaults(self, *args, **kwargs):
+        init(self, *args, **{**defaults, **kwargs})
+
+    setattr(AsyncEvaluator, "__init__", init_with_defaults)
+
+
 def evaluator_daemon(
     input_queue: queue.Queue,
     output_queue: queue.Queue,
-- 
2.43.0


From db4ddcf567252c181c000d9cf8205985d071c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:38 +0000
Subject: [PATCH 46/61] fix: log what an instance does to its own log file only

The log of an instance contained the messages of all instances created in the same
process, so a report had the settings and phases of another one.
---
 gama/gama.py                      | 10 ++++++++--
 gama/logging/utility_functions.py | 13 +++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 69081ce..8f0bcee 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -40,7 +40,10 @@ from gama.data_loading import X_y_from_file
 from gama.data_formatting import format_x_y
 from gama.search_methods.async_ea import AsyncEA
 from gama.utilities.generic.timekeeper import TimeKeeper
-from gama.logging.utility_functions import register_stream_log
+from gama.logging.utility_functions import (
+    register_file_log,
+    register_stream_log,
+)
 from gama.utilities.preprocessing import (
     basic_encoding,
     basic_pipeline_extension,
@@ -234,13 +237,15 @@ class Gama(ABC):
             )
 
         register_stream_log(verbosity)
+        self._log_handler: Optional[logging.FileHandler] = None
         if store in {"logs", "all"}:
             log_file = os.path.join(self.output_directory, "gama.log")
             log_handler = logging.FileHandler(log_file)
             log_handler.setLevel(logging.DEBUG)
             log_format = logging.Formatter("[%(asctime)s - %(name)s] %(message)s")
             log_handler.setFormatter(log_format)
-            logging.getLogger("gama").addHandler(log_handler)
+            self._log_handler = log_handler
+        register_file_log(self._log_handler)
 
         arguments = ",".join(
             [
@@ -544,6 +549,7 @@ class Gama(ABC):
             If None is given, random start candidates are generated.
         """
         self._time_manager = TimeKeeper(self._time_manager.total_time)
+        register_file_log(self._log_handler)
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
diff --git a/gama/logging/utility_functions.py b/gama/logging/utility_functions.py
index d99c498..db1fd56 100644
--- a/gama/logging/utility_functions.py
+++ b/gama/logging/utility_functions.py
@@ -1,5 +1,6 @@
 import logging
 import sys
+from typing import Optional
 
 gama_log = logging.getLogger("gama")
 
@@ -24,3 +25,15 @@ def register_stream_log(verbosity: int) -> None:
     setattr(stdout_streamhandler, "tag", "machine_set")
     stdout_streamhandler.setLevel(verbosity)
     gama_log.addHandler(stdout_streamhandler)
+
+
+def register_file_log(handler: Optional[logging.FileHandler]) -> None:
+    """Log to `handler` (if any) instead of the log files of other GAMA instances."""
+    for previous_handler in list(gama_log.handlers):
+        if isinstance(previous_handler, logging.FileHandler):
+            if hasattr(previous_handler, "tag"):
+                gama_log.removeHandler(previous_handler)
+
+    if handler is not None:
+        setattr(handler, "tag", "machine_set")
+        gama_log.addHandler(handler)
-- 
2.43.0


From b4a390fb46c14063828b2189284cd699021c14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:04 +0000
Subject: [PATCH 47/61] fix: forget evaluations of earlier data when fitting
 again

A second fit considered models evaluated on the data of the first for its ensemble,
sampled predictions for the rows of the first data, and could not save evaluations
because the directory to do so had been removed.
---
 gama/GamaClassifier.py               |  1 -
 gama/gama.py                         | 15 ++++++++++++++-
 gama/logging/evaluation_logger.py    |  3 +++
 gama/utilities/evaluation_library.py |  6 ++++++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index d253229..578f383 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -146,7 +146,6 @@ class GamaClassifier(Gama):
         if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
             y = self._label_encoder.transform(y)
-        self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
         # the cross validator does not encounter unseen labels in smaller
diff --git a/gama/gama.py b/gama/gama.py
index 8f0bcee..11c857a 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -357,6 +357,10 @@ class Gama(ABC):
             for file in os.listdir(self.output_directory):
                 if file.endswith(".log"):
                     os.remove(os.path.join(self.output_directory, file))
+            if self._log_handler is not None:
+                # Continues with a new file in case `fit` is called again
+                logging.getLogger("gama").removeHandler(self._log_handler)
+                self._log_handler.close()
         if which in ["evaluations", "all"] and os.path.exists(cache_directory):
             shutil.rmtree(cache_directory)
         if which == "all":
@@ -549,16 +553,25 @@ class Gama(ABC):
             If None is given, random start candidates are generated.
         """
         self._time_manager = TimeKeeper(self._time_manager.total_time)
+        os.makedirs(self.output_directory, exist_ok=True)
         register_file_log(self._log_handler)
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
         ):
             x, y = format_x_y(x, y)
+            is_classification = hasattr(self, "_label_encoder")
+            # Anything known from a previous fit may concern different data.
+            self._evaluation_library.clear()
+            if is_classification:
+                self._evaluation_library.determine_sample_indices(stratify=y)
+            else:
+                self._evaluation_library.determine_sample_indices(
+                    prediction_size=len(y)
+                )
             # Rows are paired by position, but some encoders compare the indices.
             self._y = y.set_axis(x.index)
             self._inferred_dtypes = x.dtypes
-            is_classification = hasattr(self, "_label_encoder")
             self._x, self._basic_encoding_pipeline = basic_encoding(
                 x, is_classification
             )
diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 1798bb7..b50dee8 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -2,6 +2,7 @@ import csv
 from datetime import datetime
 from functools import partial
 import operator
+import os
 from typing import Any, Optional, Dict, Callable, Iterable
 
 from gama.logging import TIME_FORMAT
@@ -74,6 +75,8 @@ class EvaluationLogger:
             writer.writerow(values)
 
     def log_evaluation(self, evaluation) -> None:
+        if not os.path.exists(self._file_path):  # it may be removed between runs
+            self.log_line(list(self.fields))
         values = [getter(evaluation) for getter in self.fields.values()]
 
         def format_value(v):
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index 36bc215..59bf4ba 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -258,6 +258,12 @@ class EvaluationLibrary:
 
         self.lookup[self._lookup_key(evaluation)] = evaluation
 
+    def clear(self) -> None:
+        """Forget all evaluations, models saved to disk are not removed."""
+        self.top_evaluations, self.other_evaluations = [], []
+        self.lookup.clear()
+        os.makedirs(self._cache, exist_ok=True)
+
     def clear_cache(self) -> None:
         for file in os.listdir(self._cache):
             os.remove(os.path.join(self._cache, file))
-- 
2.43.0


From b937a3e55edd251d3780f23e2f32625609256eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:04 +0000
Subject: [PATCH 48/61] fix: do not return individuals of a previous random
 search

---
 gama/gama.py                         | 2 +-
 gama/search_methods/random_search.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 11c857a..78de7b4 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -692,7 +692,7 @@ class Gama(ABC):
         except KeyboardInterrupt:
             log.info("Search phase terminated because of Keyboard Interrupt.")
 
-        self._final_pop = self._search_method.output
+        self._final_pop = list(self._search_method.output)
         n_evaluations = len(self._evaluation_library.evaluations)
         log.info(f"Search phase evaluated {n_evaluations} individuals.")
 
diff --git a/gama/search_methods/random_search.py b/gama/search_methods/random_search.py
index ddf5ff6..8709ebb 100644
--- a/gama/search_methods/random_search.py
+++ b/gama/search_methods/random_search.py
@@ -25,6 +25,7 @@ class RandomSearch(BaseSearch):
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
     ) -> None:
+        self.output = []  # not the individuals found in a previous search
         random_search(operations, self.output, start_candidates)
 
 
-- 
2.43.0


From 5c3c54821cfbd05b73447164ee67111286cbbe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:04 +0000
Subject: [PATCH 49/61] fix: preprocess as the data requires for given start
 candidates

Pipelines given or found in an earlier fit kept the preprocessing steps of the data
they were made for, e.g., without imputation.
---
 gama/gama.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 78de7b4..456cf0f 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -1,3 +1,4 @@
+import copy
 import shutil
 from abc import ABC
 from collections import defaultdict
@@ -666,6 +667,11 @@ class Gama(ABC):
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
+        # Start candidates may be compiled for different data (or not at all yet).
+        pop = [copy.copy(individual) for individual in pop]
+        for individual in pop:
+            individual._to_pipeline = self._operator_set._safe_compile
+
         deadline = time.time() + timeout
 
         # Other instances may have been created since this one.
-- 
2.43.0


From 961545b387630ff08d5dcd3b74b9003270ef0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:04 +0000
Subject: [PATCH 50/61] fix: exclude components only for the data which is too
 large for them

Components were still excluded when fitting to smaller data afterwards, and excluding
PolynomialFeatures failed if there are no preprocessing steps to begin with.
---
 gama/gama.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 456cf0f..928e556 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -219,6 +219,7 @@ class Gama(ABC):
             raise ValueError(f"Unknown value for {store=}.")
         self._metrics: Tuple[Metric, ...] = scoring_to_metric(scoring)
         self._pset = pset_from_config(search_space)[0]
+        self._full_pset = dict(self._pset)
         if DATA_TERMINAL not in self._pset and (max_pipeline_length or 1) > 1:
             raise ValueError(
                 f"`max_pipeline_length` can't be {max_pipeline_length} "
@@ -587,6 +588,7 @@ class Gama(ABC):
                 self._evaluation_library._m is None or self._evaluation_library._m > 0
             )
 
+            self._pset.update(self._full_pset)  # something may have been excluded
             if store_pipelines and self._x.shape[0] * self._x.shape[1] > 6_000_000:
                 # if m > 0, we are storing models for each evaluation. For this size
                 # KNN will create models of about 76Mb in size, which is too big, so
@@ -594,21 +596,15 @@ class Gama(ABC):
                 log.info("Excluding KNN from search because the dataset is too big.")
                 from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
 
-                self._pset["prediction"] = [
-                    p
-                    for p in self._pset["prediction"]
-                    if p.identifier not in [KNeighborsClassifier, KNeighborsRegressor]
-                ]
+                self._exclude_from_search(
+                    "prediction", [KNeighborsClassifier, KNeighborsRegressor]
+                )
 
             if store_pipelines and self._x.shape[1] > 50:
                 log.info("Data has too many features to include PolynomialFeatures")
                 from sklearn.preprocessing import PolynomialFeatures
 
-                self._pset["data"] = [
-                    p
-                    for p in self._pset["data"]
-                    if p.identifier not in [PolynomialFeatures]
-                ]
+                self._exclude_from_search(DATA_TERMINAL, [PolynomialFeatures])
 
         if self._time_manager.total_time_remaining < 0:
             pre_time = self._time_manager.activities[-1].stopwatch.elapsed_time
@@ -654,6 +650,16 @@ class Gama(ABC):
             self.cleanup(to_clean[self._store])
         return self
 
+    def _exclude_from_search(self, return_type: str, components: List[type]) -> None:
+        """Don't use `components`, unless there are no others to use."""
+        remaining = [
+            primitive
+            for primitive in self._pset.get(return_type, [])
+            if primitive.identifier not in components
+        ]
+        if remaining:
+            self._pset[return_type] = remaining
+
     def _search_phase(
         self, warm_start: Optional[List[Individual]] = None, timeout: float = 1e6
     ) -> None:
-- 
2.43.0


From f51d816e5d8cce7b3cb392026a5861550fb727ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:04 +0000
Subject: [PATCH 51/61] fix: limit ASHA to the rows of the current data, not
 those of earlier data

---
 gama/search_methods/asha.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index f12d8ed..906b224 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -51,6 +51,7 @@ class AsynchronousSuccessiveHalving(BaseSearch):
             maximum_resource=(maximum_resource, 1.0),
             minimum_early_stopping_rate=(minimum_early_stopping_rate, 0),
         )
+        self._set_maximum_resource = maximum_resource
         self.output = []
 
         self.logger = partial(
@@ -64,7 +65,10 @@ class AsynchronousSuccessiveHalving(BaseSearch):
     def dynamic_defaults(
         self, x: pd.DataFrame, y: pd.DataFrame, time_limit: float
     ) -> None:
-        set_max, default = self._hyperparameters["maximum_resource"]
+        # The value set by the user, earlier data may have had fewer samples.
+        set_max = self._set_maximum_resource
+        _, default = self._hyperparameters["maximum_resource"]
+        self._hyperparameters["maximum_resource"] = (set_max, default)
         if set_max is not None and len(y) < set_max:
             # todo: take into account the evaluation procedure as well.
             logging.warning(
-- 
2.43.0


From c3a7a90685d524757d88a3f8fae4217e7d36dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:17 +0000
Subject: [PATCH 52/61] fix: respect max_eval_time with ASHA

---
 gama/search_methods/asha.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 906b224..5382873 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -177,13 +177,8 @@ def asha(
 
             def start_new_job():
                 individual, rung = get_job()
-                time_penalty = rung_resources[rung] / max(rung_resources.values())
                 async_.submit(
-                    evaluate,
-                    individual,
-                    rung,
-                    subsample=rung_resources[rung],
-                    timeout=(10 + (time_penalty * 600)),
+                    evaluate, individual, rung, subsample=rung_resources[rung]
                 )
 
             for _ in range(8):
-- 
2.43.0


From 091163fd8fc7e8cb82b0a3d7a05837d070a5e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:17 +0000
Subject: [PATCH 53/61] fix: never default to an evaluation time of zero
 seconds

---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 928e556..bc78404 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -282,7 +282,7 @@ class Gama(ABC):
         set_evaluator_defaults(**self._evaluator_settings)
 
         if max_eval_time is None:
-            max_eval_time = round(0.1 * max_total_time)
+            max_eval_time = max(1, round(0.1 * max_total_time))
         if max_eval_time > max_total_time:
             log.warning(
                 f"max_eval_time ({max_eval_time}) > max_total_time ({max_total_time}) "
-- 
2.43.0


From 562b8e9080985f0567c68664b4fef10662c01ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:17 +0000
Subject: [PATCH 54/61] fix: end an activity also when it fails

---
 gama/utilities/generic/timekeeper.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gama/utilities/generic/timekeeper.py b/gama/utilities/generic/timekeeper.py
index 7253c8b..6a78fe4 100644
--- a/gama/utilities/generic/timekeeper.py
+++ b/gama/utilities/generic/timekeeper.py
@@ -114,9 +114,11 @@ class TimeKeeper:
         act = f"{activity} {','.join(map(str, activity_meta))}"
         log.info(f"START: {act}")
 
-        with Stopwatch() as sw:
-            self.current_activity = Activity(activity, sw, time_limit)
-            self.activities.append(self.current_activity)
-            yield sw
-        self.current_activity = None
+        try:
+            with Stopwatch() as sw:
+                self.current_activity = Activity(activity, sw, time_limit)
+                self.activities.append(self.current_activity)
+                yield sw
+        finally:
+            self.current_activity = None
         log.info(f"STOP: {act} after {sw.elapsed_time:.4f}s.")
-- 
2.43.0


From 924d331ce4f97d6de215e0bbf968fa9febfbc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:39 +0000
Subject: [PATCH 55/61] fix: promote the first of equally good individuals in
 ASHA, for reproducibility

---
 gama/search_methods/asha.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 5382873..78f08b5 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -160,8 +160,9 @@ def asha(
             # This is not in the paper code but is derived from fig 2b
             n_to_promote = math.floor(len(individuals) / reduction_factor)
             if n_to_promote - len(promoted_individuals[rung]) > 0:
-                # Problem: equal loss falls back on comparison of individual
-                not_promoted = set(individuals) - set(promoted_individuals[rung])
+                # A list, as the order of a set (used for equal loss) is arbitrary
+                promoted = set(promoted_individuals[rung])
+                not_promoted = [i for i in individuals if i not in promoted]
                 if len(not_promoted) > 0:
                     to_promote = max(not_promoted, key=lambda i: i[0])
                     promoted_individuals[rung].append(to_promote)
-- 
2.43.0


From 672245a54d128b4446ea3b1b68018676b5972f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:48 +0000
Subject: [PATCH 56/61] fix: let the seed of an instance determine its search,
 not that of the last instance

---
 gama/gama.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index bc78404..f097205 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -297,9 +297,8 @@ class Gama(ABC):
         self._post_processing = post_processing
         self._store = store
 
-        if random_state is not None:
-            random.seed(random_state)
-            np.random.seed(random_state)
+        self._random_state = random_state
+        self._set_random_seed()
 
         self._x: Optional[pd.DataFrame] = None
         self._y: Optional[pd.DataFrame] = None
@@ -350,6 +349,11 @@ class Gama(ABC):
             completed_evaluations=self._evaluation_library.lookup,
         )
 
+    def _set_random_seed(self) -> None:
+        if self._random_state is not None:
+            random.seed(self._random_state)
+            np.random.seed(self._random_state)
+
     def cleanup(self, which="evaluations") -> None:
         cache_directory = os.path.join(self.output_directory, "cache")
         if not os.path.exists(self.output_directory):
@@ -557,6 +561,8 @@ class Gama(ABC):
         self._time_manager = TimeKeeper(self._time_manager.total_time)
         os.makedirs(self.output_directory, exist_ok=True)
         register_file_log(self._log_handler)
+        # Random numbers may have been used, or seeded, since initialization
+        self._set_random_seed()
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
-- 
2.43.0


From 669d29cb202ffcd6ccea8bb39524e1ab4252f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:56 +0000
Subject: [PATCH 57/61] fix: open the input file of the command line with its
 own case

---
 gama/utilities/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/utilities/cli.py b/gama/utilities/cli.py
index 9612a62..b08f80a 100644
--- a/gama/utilities/cli.py
+++ b/gama/utilities/cli.py
@@ -138,7 +138,7 @@ def main(command: Union[str, List[str]] = ""):
     args = parser.parse_args(command) if command else parser.parse_args()
 
     print("CLI: Processing input")
-    if not os.path.exists(args.input_file.lower()):
+    if not os.path.exists(args.input_file):
         raise FileNotFoundError(args.input_file)
     if args.input_file.lower().split(".")[-1] not in ["csv", "arff"]:
         raise ValueError("Unknown file extension. Please use csv or arff.")
@@ -148,7 +148,7 @@ def main(command: Union[str, List[str]] = ""):
         kwargs["sep"] = args.seperator
 
     x, y = X_y_from_file(
-        file_path=args.input_file.lower(),
+        file_path=args.input_file,
         split_column=args.target,
         **kwargs,
     )
-- 
2.43.0


From 87d4228436991b428863bafd84491f42691e5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:56 +0000
Subject: [PATCH 58/61] fix: use the separator given on the command line

---
 gama/utilities/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/utilities/cli.py b/gama/utilities/cli.py
index b08f80a..36ec606 100644
--- a/gama/utilities/cli.py
+++ b/gama/utilities/cli.py
@@ -145,7 +145,7 @@ def main(command: Union[str, List[str]] = ""):
 
     kwargs = {}
     if args.input_file.lower().endswith(".csv") and args.separator is not None:
-        kwargs["sep"] = args.seperator
+        kwargs["sep"] = args.separator
 
     x, y = X_y_from_file(
         file_path=args.input_file,
-- 
2.43.0


From 9c8d189e7e3e9365fdbc419bdd0c1ff66b063202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 59/61] fix: leave out classifiers without probabilities also
 from a search space given as config

---
 gama/GamaClassifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 578f383..08eb0ce 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -17,7 +17,9 @@ class GamaClassifier(Gama):
     """Gama with adaptations for (multi-class) classification."""
 
     def __init__(self, search_space=None, scoring="neg_log_loss", *args, **kwargs):
-        if not search_space:
+        if kwargs.get("config"):
+            search_space = kwargs["config"]
+        elif not search_space:
             # Do this to avoid the whole dictionary being included in the documentation.
             search_space = clf_config
 
@@ -34,6 +36,8 @@ class GamaClassifier(Gama):
                     and not hasattr(alg(), "predict_proba")
                 )
             }
+            if kwargs.get("config"):
+                kwargs["config"] = search_space
 
         self._label_encoder = None
         if not isinstance(scoring, (str, Metric)):
-- 
2.43.0


From 5cb3d87a5173caadb08df99e9f65352c21cc5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 60/61] fix: read pipelines with 'data' in the name of a
 component

---
 gama/genetic_programming/components/primitive_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/components/primitive_node.py b/gama/genetic_programming/components/primitive_node.py
index 0a6671c..6dcb835 100644
--- a/gama/genetic_programming/components/primitive_node.py
+++ b/gama/genetic_programming/components/primitive_node.py
@@ -86,7 +86,7 @@ class PrimitiveNode:
         # A(B(C(data[, C.param=value, ..])[, B.param=value, ..])[, A.param=value, ..])
         # below assumes that left parenthesis is never part of a parameter name or value
         primitives = string.split("(")[:-1]
-        terminal_start_index = string.index(DATA_TERMINAL)
+        terminal_start_index = string.rindex("(") + 1
         terminals_string = string[terminal_start_index + len(DATA_TERMINAL) :]
         terminal_sets = terminals_string.split(")")[:-1]
 
-- 
2.43.0


From 98171a71e99079d80ffb86b78f095903aef14f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 61/61] fix: an interrupted second fit no longer post-processes
 the previous search's output

---
 gama/gama.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index f097205..3964065 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -703,6 +703,8 @@ class Gama(ABC):
             add_length_to_score=self._regularize_length,
         )
 
+        # An interruption before search starts should not leave earlier results.
+        self._search_method.output = []
         try:
             with stopit.ThreadingTimeout(timeout):
                 self._search_method.dynamic_defaults(self._x, self._y, timeout)
-- 
2.43.0

