"""C08: validation scores are honest cross-validation scores."""
import math
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.metrics import (accuracy_score, average_precision_score, explained_variance_score, f1_score, log_loss,
                             mean_absolute_error, mean_squared_error, mean_squared_log_error, median_absolute_error,
                             precision_score, r2_score, recall_score, roc_auc_score)
from sklearn.model_selection import KFold, StratifiedKFold
from sklearn.pipeline import Pipeline

from gama.genetic_programming.compilers.scikitlearn import evaluate_pipeline
from gama.utilities.metrics import scoring_to_metric
from harness import components as comp, gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "every class has at least two rows (at least one per fold for averaged label metrics), so that each fold can be scored",
    "the stratified subsample leaves at least one row per class on both sides, or covers the whole training part",
]

CLF = ["accuracy", "neg_log_loss", "f1_macro", "precision_weighted", "recall_micro", "roc_auc", "average_precision", "f1_weighted", "precision_macro", "recall_macro"]
BINARY_ONLY = {"roc_auc", "average_precision"}
REG = ["neg_mean_squared_error", "r2", "neg_mean_absolute_error", "explained_variance", "neg_median_absolute_error", "neg_mean_squared_log_error"]
PROBA = {"neg_log_loss", "roc_auc"}


def reference_score(name, y, est, x, labels):
    if name in ("neg_log_loss", "roc_auc", "average_precision"):
        p = est.predict_proba(x)
        if name == "neg_log_loss":
            return -log_loss(y, p, labels=labels)
        fn = roc_auc_score if name == "roc_auc" else average_precision_score
        if name == "average_precision":
            return fn(y, p[:, 1], pos_label=1)
        return fn(y, p[:, 1])
    pred = est.predict(x)
    if name == "accuracy":
        return accuracy_score(y, pred)
    for prefix, fn in (("f1_", f1_score), ("precision_", precision_score), ("recall_", recall_score)):
        if name.startswith(prefix):
            return fn(y, pred, average=name[len(prefix):], labels=labels)
    return {
        "neg_mean_squared_error": lambda: -mean_squared_error(y, pred),
        "r2": lambda: r2_score(y, pred),
        "neg_mean_absolute_error": lambda: -mean_absolute_error(y, pred),
        "explained_variance": lambda: explained_variance_score(y, pred),
        "neg_median_absolute_error": lambda: -median_absolute_error(y, pred),
        "neg_mean_squared_log_error": lambda: -mean_squared_log_error(y, pred),
    }[name]()


@st.composite
def targets(draw, task, cv, metrics, extra=0):
    """A target with at least cv rows of every class (classification) or two rows per fold (regression)."""
    if task == "reg":
        n = draw(st.integers(2 * cv, 2 * cv + 14))
        return draw(st.lists(st.integers(0, 40).map(lambda v: v / 4), min_size=n, max_size=n))
    binary = bool(BINARY_ONLY & set(metrics))
    if not binary and not draw(st.integers(0, 15)):  # many classes
        y = [label for label in range(draw(st.one_of(st.integers(21, 26), st.integers(45, 60)))) for _ in range(cv + extra)]
        random.Random(draw(gen.seeds)).shuffle(y)
        return y
    k = 2 if binary else draw(st.integers(2, 3))
    labels = [0, 1] if "average_precision" in metrics else draw(st.sampled_from([[0, 1, 2], [1, 2, 3], [-1, 4, 7], [3, 5, 10]]))[:k]
    y = []
    for label in labels:
        y += [label] * draw(st.integers(cv + extra, cv + extra + 6))
    return draw(st.permutations(y))


@st.composite
def cases(draw, subsample):
    task = draw(st.sampled_from(["clf", "reg"]))
    metrics = draw(st.lists(st.sampled_from(CLF if task == "clf" else REG), min_size=1, max_size=3, unique=True))
    cv = draw(st.sampled_from([None, None, 2, 3, 4, 5, 8, 10]))
    y = draw(targets(task, cv or 5, metrics, extra=3 if subsample else 0))
    n = len(y)
    case = {"task": task, "metrics": metrics, "cv": cv, "y": y, "index": draw(gen.index_strategy(n)), "salt": draw(st.integers(0, 5)),
            "scaler": draw(st.booleans()), "order": draw(st.permutations(range(n)))}
    if subsample:
        case["subsample"] = draw(st.one_of(
            st.floats(0.15, 0.9).map(lambda f: round(f, 3)), st.sampled_from([1.0, 0.5, 0.25]),
            st.integers(2, n + 3)))
    return case


def data(case):
    n = len(case["y"])
    index = gen.make_index(case["index"], n)
    rows = np.array(case["order"], dtype=float) + 1
    x = pd.DataFrame({"row": rows, "other": np.arange(n) % 5 + 0.5}, index=index)
    y = pd.Series(np.array(case["y"]), index=index)
    return x, y


def learner(case):
    if case["task"] == "reg":
        return comp.RowRegressor(case["salt"])
    needs = any(m in PROBA or m == "average_precision" for m in case["metrics"])
    return (comp.RowClassifier if needs or case["salt"] % 2 else comp.LabelRowClassifier)(case["salt"])


def pipeline_of(case):
    return Pipeline(([("1", comp.PlainScaler())] if case["scaler"] else []) + [("0", learner(case))])


def splits_of(case, x, y):
    k = case["cv"] or 5
    splitter = StratifiedKFold(k) if case["task"] == "clf" else KFold(k)
    return list(splitter.split(np.zeros(len(y)), np.asarray(y)))


def run(case, x, y):
    kwargs = {}
    if case["cv"] is not None:
        kwargs["cv"] = case["cv"]
    if "subsample" in case:
        kwargs["subsample"] = case["subsample"]
    metrics = scoring_to_metric(case["metrics"])
    return evaluate_pipeline(pipeline_of(case), x, y, timeout=120, metrics=metrics, **kwargs)


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_result(case, result, x, y, ctx, labels=None):
    """Everything but which rows were trained on."""
    predictions, scores, estimators, error = result
    require(error is None, "evaluation of a working pipeline failed", lambda: repr(error))
    splits = splits_of(case, x, y)
    require(estimators is not None and len(estimators) == len(splits), "not one estimator per fold", lambda: len(estimators))
    yv = np.asarray(y)
    expected = []
    for i, name in enumerate(case["metrics"]):
        folds = [reference_score(name, yv[test], est, x.iloc[test, :], labels) for est, (_, test) in zip(estimators, splits)]
        expected.append(float(np.mean(folds)))
    require(len(scores) >= len(expected) and all(close(a, b) for a, b in zip(scores, expected)),
            "scores are not the fold means of the metrics", list(scores), expected, case["metrics"])
    predictions = np.asarray(predictions)
    proba = any(m in PROBA for m in case["metrics"])
    require(len(predictions) == len(yv), "not one prediction per row", predictions.shape)
    for est, (_, test) in zip(estimators, splits):
        want = est.predict_proba(x.iloc[test, :]) if proba else est.predict(x.iloc[test, :])
        require(predictions[test].shape == want.shape and np.allclose(predictions[test].astype(float), want.astype(float), rtol=1e-12, atol=0),
                "predictions are not those of the estimator that had not seen the row", predictions[test][:5].tolist(), want[:5].tolist())
    return splits


def trained_on(est):
    last = est.steps[-1][1]
    return last.rows_, last.targets_


def check_full(case, ctx):
    seed_all(7)
    x, y = data(case)
    x0, y0 = x.copy(deep=True), y.copy(deep=True)
    result = run(case, x, y)
    splits = check_result(case, result, x, y, ctx)
    for est, (train, _) in zip(result[2], splits):
        rows, targets = trained_on(est)
        require(rows == [float(v) for v in x["row"].iloc[train]] and targets == list(y.iloc[train]),
                "a fold was not trained on its training part", rows)
    require(gen.frames_identical(x, x0) and list(y) == list(y0), "evaluation modified the data")
    again = run(case, x, y)
    require(list(again[1]) == list(result[1]), "the same pipeline got another score", again[1], result[1])
    ctx.label(case["task"], f"cv{case['cv']}", "index" if case["index"] != "default" else "plain", *case["metrics"])
    ctx.nontrivial(case["index"] != "default" or len(case["metrics"]) > 1)


def check_sub(case, ctx):
    seed_all(7)
    x, y = data(case)
    sub = case["subsample"]
    n_classes = len(set(case["y"])) if case["task"] == "clf" else 1
    possible = True
    for train, _ in splits_of(case, x, y):
        size = len(train)
        rarest = min(np.unique(y.iloc[train], return_counts=True)[1]) if case["task"] == "clf" else size
        want = math.floor(sub * size) if isinstance(sub, float) else sub
        whole = (isinstance(sub, float) and sub >= 1.0) or (isinstance(sub, int) and sub >= size)
        if not whole and (want < n_classes or size - want < n_classes or want * rarest < size):
            possible = False
    result = run(case, x, y)
    if not possible:
        ctx.label("impossible")
        if result[3] is not None:
            return
    splits = check_result(case, result, x, y, ctx)
    row_target = dict(zip(x["row"], y))
    for est, (train, test) in zip(result[2], splits):
        rows, targets = trained_on(est)
        part = [float(v) for v in x["row"].iloc[train]]
        require(len(set(rows)) == len(rows) and set(rows) <= set(part),
                "a fold was trained on rows outside its training part", sorted(set(rows) - set(part)))
        require([row_target[r] for r in rows] == targets, "a training row got another row's target")
        size = len(part)
        want = sub * size if isinstance(sub, float) else min(sub, size)
        require(abs(len(rows) - min(want, size)) < 1 + 1e-9 if isinstance(sub, float) else len(rows) == want,
                "wrong number of training rows", len(rows), want, size)
        if case["task"] == "clf":
            for label in set(case["y"]):
                share = sum(1 for r in part if row_target[r] == label) * len(rows) / size
                have = sum(1 for t in targets if t == label)
                require(abs(have - share) < 1 + 1e-9, "the subsample is not stratified", label, have, share)
        if len(rows) < size:
            ctx.label("smaller")
            ctx.nontrivial()
    again = run(case, x, y)
    require(list(again[1]) == list(result[1]), "the same pipeline and subsample got another score", again[1], result[1])
    require([trained_on(e)[0] for e in again[2]] == [trained_on(e)[0] for e in result[2]], "candidates are compared on different subsamples")
    ctx.label(case["task"], type(sub).__name__, "index" if case["index"] != "default" else "plain")


# ---------------------------------------------------------------- through a fit


@st.composite
def fit_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    metrics = draw(st.lists(st.sampled_from([m for m in (CLF if task == "clf" else REG) if m != "average_precision"]), min_size=1, max_size=2, unique=True))
    y = draw(targets(task, 5, metrics))
    n = len(y)
    case = {"task": task, "metrics": metrics, "cv": None, "y": y, "index": draw(gen.index_strategy(n)), "salt": 1, "scaler": False,
            "order": draw(st.permutations(range(n))), "text": draw(st.booleans()), "length": draw(st.booleans()),
            "missing": draw(st.lists(st.integers(0, n), max_size=3))}
    return case


def check_fit(case, ctx):
    seed_all(7)
    x, y = data(case)
    if case["task"] == "clf" and case["text"]:
        names = {label: f"label {i}" for i, label in enumerate(sorted(set(case["y"])))}
        given = [names[v] for v in case["y"]]
        y = pd.Series([sorted(set(given)).index(v) for v in given], index=y.index)
    else:
        given = list(case["y"])
    # rows without target must not take part
    xs, ys = [], []
    position = 0
    for i in range(len(given) + 1):
        for m in case["missing"]:
            if m == i:
                xs.append([5000.0 + len(xs), 0.5])
                ys.append(None if isinstance(given[0], str) else float("nan"))
        if i < len(given):
            xs.append([float(x["row"].iloc[i]), float(x["other"].iloc[i])])
            ys.append(given[i])
    x_all = pd.DataFrame(xs, columns=["row", "other"])
    y_all = pd.Series(np.array(ys, dtype=object if isinstance(given[0], str) else None), index=x_all.index)
    cls = comp.RowClassifier if case["task"] == "clf" else comp.RowRegressor
    space = {cls: {"salt": [1, 2, 3]}, comp.PlainScaler: {"by": [1]}}
    found = {}

    def search(ops, start):
        ind = ops.individual()
        found["evaluation"] = kit.evaluate_all(ops, [ind])[0]
        found["length"] = len(ind.primitives)
        found["estimators"] = found["evaluation"].estimators
        found["predictions"] = found["evaluation"].predictions
        return [found["evaluation"].individual]

    from gama.postprocessing import EnsemblePostProcessing, NoPostProcessing

    class KeepAll(EnsemblePostProcessing):
        def post_process(self, *args, **kwargs):
            return None

        def dynamic_defaults(self, gama):
            pass

    with kit.clean_gama(), kit.SyncEvaluator():
        g = kit.make_gama(case["task"], search_space=space, scoring=case["metrics"], regularize_length=case["length"],
                          search=kit.ProbeSearch(search), post_processing=KeepAll(), store="all")
        g.fit(x_all, y_all)
    e = found["evaluation"]
    require(e.error is None, "evaluation of a working pipeline failed", e.error)
    want = len(case["metrics"]) + (1 if case["length"] else 0)
    require(len(e.score) == want, "number of objectives", e.score)
    if case["length"]:
        require(e.score[-1] == -found["length"], "length objective", e.score, found["length"])
    labels = sorted(set(np.asarray(y).tolist())) if case["task"] == "clf" else None
    splits = check_result(case, (found["predictions"], e.score, found["estimators"], None), x.reset_index(drop=True), y.reset_index(drop=True), ctx, labels)
    for est, (train, _) in zip(found["estimators"], splits):
        rows, targets = trained_on(est)
        require([round(r) for r in rows] == [round(v) for v in x["row"].iloc[train]], "a fold was not trained on its training part", rows)
        require([float(t) for t in targets] == [float(v) for v in y.iloc[train]], "training targets differ", targets)
    ctx.label(case["task"], "text" if case["text"] else "numbers", "missing" if case["missing"] else "complete", *case["metrics"])
    ctx.nontrivial()


FACETS = [
    Facet("folds", lambda: cases(False), check_full, 1600, 30000, "several metrics or row labels other than 0..n-1"),
    Facet("subsample", lambda: cases(True), check_sub, 1600, 30000, "the folds train on fewer rows than their training part holds"),
    Facet("fit", fit_cases, check_fit, 320, 6000, "every case: a pipeline evaluated inside a fit"),
]
