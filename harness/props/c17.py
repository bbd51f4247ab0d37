"""C17: ensembles are greedy, weighted and predict the weighted average."""
import os
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn import metrics as sk
from sklearn.base import clone
from sklearn.model_selection import KFold, StratifiedKFold

from gama.postprocessing import EnsemblePostProcessing
from gama.postprocessing.ensemble import EnsembleClassifier, EnsembleRegressor, build_fit_ensemble
from gama.search_methods import RandomSearch
from gama.utilities.evaluation_library import Evaluation, EvaluationLibrary
from gama.utilities.metrics import Metric
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "at least one evaluation succeeded; every fold model knows all classes",
    "two additions whose scores differ by less than 1e-9 are equally good; so are two classes with equally many votes",
]

SPACE = {"task": "clf", "shared": {}, "param_check": False, "ops": [["p", 0, {"b": ["range", [0, 40]]}], ["p", 1, {"c": ["list", [True, False]]}]]}
LABELS = {"int": [0, 1, 2, 3], "gap": [3, 7, 12, 40], "neg": [-2, -1, 5, 9]}

RAW = {
    "neg_log_loss": lambda y, p, labels: -sk.log_loss(y, p, labels=labels),
    "roc_auc": lambda y, p, labels: sk.roc_auc_score(y, p[:, 1]),
    "accuracy": lambda y, p, labels: sk.accuracy_score(y, p),
    "f1_macro": lambda y, p, labels: sk.f1_score(y, p, average="macro"),
    "recall_weighted": lambda y, p, labels: sk.recall_score(y, p, average="weighted"),
    "r2": lambda y, p, labels: sk.r2_score(y, p),
    "neg_mean_squared_error": lambda y, p, labels: -sk.mean_squared_error(y, p),
    "neg_mean_absolute_error": lambda y, p, labels: -sk.mean_absolute_error(y, p),
}
PROBA = ("neg_log_loss", "roc_auc")
REG = ("r2", "neg_mean_squared_error", "neg_mean_absolute_error")


class FoldModel:
    """A fitted model: its answer for row r is in a table."""

    def __init__(self, tag, fold, classes, table):
        self.tag, self.fold, self.classes, self.table = tag, fold, classes, table

    def _rows(self, X):
        return np.asarray(X)[:, 0].astype(int)

    def predict_proba(self, X):
        return self.table[self._rows(X)]

    def predict(self, X):
        t = self.table[self._rows(X)]
        return t if self.classes is None else np.array(self.classes)[np.argmax(t, axis=1)]


@st.composite
def cases(draw):
    metric = draw(st.sampled_from(["neg_log_loss", "neg_log_loss", "roc_auc", "accuracy", "accuracy", "f1_macro", "recall_weighted", "r2", "neg_mean_squared_error", "neg_mean_absolute_error"]))
    n = draw(st.integers(4, 24))
    k = 2 if metric == "roc_auc" else draw(st.integers(2, 4))
    n_models = draw(st.one_of(st.integers(1, 6), st.integers(7, 16)))
    models = [{"score": draw(st.integers(-6, 6)), "seed": draw(st.integers(0, 9999)), "skill": draw(st.sampled_from([0.0, 0.5, 1.0, 2.0])),
               "error": draw(st.integers(0, 7)) == 0, "again": draw(st.integers(0, 6)) == 0} for _ in range(n_models)]
    models[0]["error"] = False
    return {
        "metric": metric, "n": n, "k": k, "labels": draw(st.sampled_from(sorted(LABELS))), "models": models, "folds": draw(st.integers(1, 3)),
        "size": draw(st.one_of(st.integers(1, 12), st.sampled_from([10, 11, 25]))), "m": draw(st.sampled_from([None, 200, 200, 1, 3, 12])),
        "sample": draw(st.sampled_from([None, None, 10_000, 3, 6])), "stratify": draw(st.booleans()),
        "down": draw(st.sampled_from([None, None, None, 2, 4])), "seed": draw(gen.seeds), "yseed": draw(st.integers(0, 999)),
        "index": draw(st.sampled_from(["default", "shifted", "shuffled", "reversed", "repeated"])), "as_proba": draw(st.integers(0, 3)) == 0, "extra": draw(st.sampled_from([0.0, 0.0, 1.5])),
    }


def problem(case):
    """True targets, classes."""
    rng = np.random.RandomState(case["yseed"])
    n, k = case["n"], case["k"]
    if case["metric"] in REG:
        return np.round(rng.normal(size=n), 3), None
    classes = LABELS[case["labels"]][:k]
    y = [classes[i % k] for i in range(n)]
    return np.array([y[i] for i in rng.permutation(n)]), classes


def answers(case, model, y, classes, salt):
    """What a model says about every row: values, or a table of probabilities."""
    rng = np.random.RandomState((model["seed"] * 7 + salt) % (2**31))
    if classes is None:
        return np.round(y * min(model["skill"], 1.0) + rng.normal(size=len(y)), 4)
    t = rng.uniform(0.05, 1.0, size=(len(y), len(classes)))
    for i, v in enumerate(y):
        t[i, classes.index(v)] += model["skill"] * rng.uniform()
    return t / t.sum(axis=1, keepdims=True)


def make_library(case, y, classes):
    seed_all(case["seed"])
    directory = os.path.join(os.getcwd(), f"cache{len(os.listdir('.'))}")
    library = EvaluationLibrary(m=case["m"], n=case["sample"], cache=directory)
    if case["stratify"] and classes is not None:
        library.determine_sample_indices(stratify=y)
    proba = case["metric"] in PROBA
    validation, estimators = {}, {}
    previous = None
    for tag, model in enumerate(case["models"]):
        if model["again"] and previous is not None:
            individual = previous
        else:
            individual = kit.individual_of(SPACE, [[0, {"b": tag}]])
        previous = individual
        table = answers(case, model, y, classes, 0)
        predictions = table if classes is None or proba else np.array(classes)[np.argmax(table, axis=1)]
        validation[tag] = predictions
        estimators[tag] = [FoldModel(tag, f, classes, answers(case, model, y, classes, 1 + f)) for f in range(case["folds"])]
        library.save_evaluation(Evaluation(individual, predictions=(table if case["as_proba"] and classes is not None else predictions).copy(), score=(float(model["score"]), -1), estimators=list(estimators[tag]),
                                           error="failed" if model["error"] else None))
    return library, validation, estimators


def weights_of(ensemble):
    out = {}
    for model, weight in ensemble._models.values():
        tag = model.estimators[0].tag
        require(tag not in out, "one model is counted separately", tag)
        out[tag] = weight
    return out


def candidate_bounds(case, y, classes, validation, weights, rows):
    """(lower, upper) of the score of the weighted average; None when it can not be told."""
    total = sum(weights.values())
    name = case["metric"]
    yr = y[rows]
    if classes is None or name in PROBA:
        average = sum(w * validation[t][rows] for t, w in weights.items()) / total
        s = RAW[name](yr, average, classes)
        return s, s
    votes = np.zeros((len(rows), len(classes)))
    for t, w in weights.items():
        for i, v in enumerate(validation[t][rows]):
            votes[i, classes.index(v)] += w
    top = votes.max(axis=1)
    tied = [(votes[i] == top[i]) for i in range(len(rows))]
    unclear = [i for i in range(len(rows)) if tied[i].sum() > 1]
    chosen = [classes[int(np.argmax(votes[i]))] for i in range(len(rows))]
    if not unclear:
        s = RAW[name](yr, chosen, classes)
        return s, s
    if name != "accuracy":
        return None
    low = sum(chosen[i] == yr[i] for i in range(len(rows)) if i not in unclear)
    high = low + sum(bool(tied[i][classes.index(yr[i])]) for i in unclear)
    return low / len(rows), high / len(rows)


def expected_output(case, classes, estimators, weights, n):
    """Weighted average over all fold models: values, or votes/probabilities per class."""
    total = sum(w * len(estimators[t]) for t, w in weights.items())
    out = 0
    for t, w in weights.items():
        for model in estimators[t]:
            if classes is None or case["metric"] in PROBA:
                answer = model.table
            else:
                answer = np.eye(len(classes))[np.argmax(model.table, axis=1)]
            out = out + w * answer
    return out / total


def check_predictions(case, ensemble, classes, estimators, weights, n):
    X = pd.DataFrame({"row": np.arange(n, dtype=float), "other": 0.0})
    want = expected_output(case, classes, estimators, weights, n)
    got = ensemble.predict(X)
    require(np.shape(got) == (n,), "not one prediction per row", np.shape(got))
    if classes is None:
        require(np.allclose(got, want, rtol=1e-9, atol=1e-9), "not the weighted mean of the members", got, want)
    else:
        p = np.asarray(ensemble.predict_proba(X))
        require(p.shape == want.shape and np.allclose(p, want, rtol=1e-9, atol=1e-9), "not the weighted average of the members", p, want)
        for i, v in enumerate(got):
            require(v in classes, "a prediction is no label", v)
            require(want[i][classes.index(v)] >= want[i].max() - 1e-9, "not the most likely class", i, v, want[i])
    back = [ensemble.predict(X.iloc[[i]])[0] for i in range(n - 1, -1, -1)][::-1]
    require(np.allclose(back, got), "a prediction depends on the other rows")


def check(case, ctx):
    y, classes = problem(case)
    n = case["n"]
    index = {"default": list(range(n)), "shifted": list(range(50, 50 + n)), "reversed": list(range(n))[::-1], "repeated": [i // 2 for i in range(n)],
             "shuffled": np.random.RandomState(case["yseed"]).permutation(n).tolist()}[case["index"]]
    y_series = pd.Series(y, index=index)
    library, validation, estimators = make_library(case, y, classes)
    kept = {e.estimators[0].tag: e for e in library.top_evaluations}
    require(all(not case["models"][t]["error"] for t in kept), "a failed evaluation is among the models")
    sample = library._sample
    rows = np.arange(n) if sample is None or isinstance(sample, str) else np.asarray(sample)
    metric = Metric(case["metric"])
    yr = y[rows]
    if classes is not None and len(set(yr)) < (len(classes) if case["metric"] in PROBA else 2):
        ctx.label("sample without all classes")
        return
    if case["metric"] == "r2" and len(rows) < 2:
        return

    def make(down=None):
        if classes is None:
            return EnsembleRegressor(metric, y_series, library, downsample_to=down, use_top_n_only=None)
        return EnsembleClassifier(metric, y_series, evaluation_library=library, downsample_to=down, use_top_n_only=None)

    # --- step by step
    initial = 1 if case["size"] <= 10 else 10
    stepper = make(case["down"])
    if case["down"] is not None and stepper._prediction_sample is not None:
        rows = rows[np.asarray(stepper._prediction_sample)]
        require(len(set(rows.tolist())) == case["down"], "not the requested number of predictions", rows)
        ctx.label("downsampled")
        if classes is not None and len(set(y[rows])) < len(classes):
            return
    stepper.build_initial_ensemble(initial)
    weights = weights_of(stepper)
    ranked = sorted((case["models"][t]["score"] for t in kept), reverse=True)
    require(sorted((case["models"][t]["score"] for t in weights), reverse=True) == ranked[:initial], "does not start from the best models", weights, ranked)
    require(set(weights.values()) == {1}, "does not start with equal weights", weights)
    decided = 0
    for _ in range(max(0, case["size"] - sum(weights.values()))):
        stepper.expand_ensemble(1)
        after = weights_of(stepper)
        grown = [t for t in after if after[t] != weights.get(t, 0)]
        require(len(grown) == 1 and after[grown[0]] == weights.get(grown[0], 0) + 1 and set(weights) <= set(after), "not exactly one model was added", weights, after)
        bounds = {}
        for t in kept:
            trial = dict(weights)
            trial[t] = trial.get(t, 0) + 1
            bounds[t] = candidate_bounds(case, y, classes, validation, trial, rows)
        if all(b is not None for b in bounds.values()):
            decided += len(kept) > 1
            best = max(b[0] for b in bounds.values())
            require(bounds[grown[0]][1] >= best - 1e-9, "the added model is not the one that improves the ensemble most", grown[0], bounds)
        weights = after
    stepper.fit(pd.DataFrame({"row": np.arange(float(n))}), y_series)
    check_predictions(case, stepper, classes, estimators, weights, n)
    # --- as post-processing does it
    seed_all(case["seed"] + 1)
    post = EnsemblePostProcessing(ensemble_size=case["size"])

    class Owner:
        _metrics = (metric, Metric("accuracy" if classes is not None else "r2"))
        _evaluation_library = library

    post.dynamic_defaults(Owner)
    ensemble = post.post_process(pd.DataFrame({"row": np.arange(float(n))}), y_series, 100.0, [])
    direct = weights_of(ensemble)
    require(sum(direct.values()) == max(case["size"], min(initial, len(kept))), "the total weight is not the ensemble size", direct, case["size"])
    if case["down"] is None:
        require(direct == weights, "post-processing builds another ensemble", direct, weights)
    check_predictions(case, ensemble, classes, estimators, direct, n)
    # --- pickling
    before = [(t, w) for t, w in direct.items()]
    text = pickle.dumps(ensemble)
    require([(t, w) for t, w in weights_of(ensemble).items()] == before, "pickling changed the ensemble")
    restored = pickle.loads(text)
    check_predictions(case, restored, classes, estimators, direct, n)
    check_predictions(case, ensemble, classes, estimators, direct, n)
    built = build_fit_ensemble(pd.DataFrame({"row": np.arange(float(n))}), y_series, case["size"], 100.0, metric, library)
    require(weights_of(built) == direct, "building again gives another ensemble")
    ctx.nontrivial(decided > 0 and len(direct) > 1)
    ctx.label(case["metric"], "sampled" if len(rows) < n else "all predictions")


# ------------------------------------------------------------------ after a real search

@st.composite
def search_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    return {"task": task, "metric": draw(st.sampled_from(["accuracy", "neg_log_loss", "f1_macro", "roc_auc"] if task == "clf" else ["r2", "neg_mean_squared_error"])),
            "evals": draw(st.integers(2, 9)), "size": draw(st.sampled_from([1, 4, 12])), "max_models": draw(st.sampled_from([None, 1, 2, 200])),
            "hillclimb": draw(st.sampled_from([None, 10, 10_000])), "n": draw(st.integers(20, 30)), "data": draw(st.integers(0, 99)), "seed": draw(gen.seeds),
            "text": draw(st.booleans())}


def check_search(case, ctx):
    clf = case["task"] == "clf"
    x, y = kit.numeric_xy(case["task"], case["n"], 4, case["data"])
    if clf and case["text"]:
        y = pd.Series([["no", "yes"][v] for v in y])
    heard = []

    def stop(k):
        if k >= case["evals"]:
            raise KeyboardInterrupt

    seed_all(case["seed"])
    with kit.clean_gama(), kit.SyncEvaluator([0], on_wait=stop):
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring=case["metric"], search=RandomSearch(), max_eval_time=60, max_total_time=600,
                          post_processing=EnsemblePostProcessing(ensemble_size=case["size"], max_models=case["max_models"], hillclimb_size=case["hillclimb"]), store="all")
        g.evaluation_completed(heard.append)
        g.fit(x, y)
        done = [e for e in heard if e.error is None]
        if not done:
            return
        ensemble = g.model
        members = [(m.individual, m.score, w) for m, w in ensemble._models.values()]
        limit = case["max_models"] or len(done)
        ranked = sorted((e.score for e in done), reverse=True)[:limit]
        require(all(s >= ranked[-1] for _, s, _ in members), "a member is not among the best models", [s for _, s, _ in members], ranked)
        want_total = max(case["size"], min(len(ranked), 1 if case["size"] <= 10 else 10))
        require(sum(w for _, _, w in members) == want_total, "the total weight is not the ensemble size", want_total)
        require(sum(w for _, _, w in members) >= len(members), "too many members")
        encoded = pd.Series([["no", "yes"].index(v) for v in y]) if clf and case["text"] else y
        classes = sorted(set(encoded)) if clf else None
        folds = list((StratifiedKFold(5) if clf else KFold(5)).split(x, encoded))
        proba = case["metric"] in PROBA
        total, out = 0, 0
        for individual, _, w in members:
            for train, _ in folds:
                model = clone(individual.pipeline).fit(x.iloc[train], encoded.iloc[train])
                if clf and proba:
                    answer = model.predict_proba(x)
                elif clf:
                    answer = np.array([[float(p == c) for c in classes] for p in model.predict(x)])
                else:
                    answer = model.predict(x)
                out = out + w * answer
                total += w
        want = out / total
        got = g.predict(x)
        if not clf:
            require(np.allclose(got, want, rtol=1e-6, atol=1e-8), "not the weighted mean of the members' fold models", got, want)
        else:
            require(np.allclose(g.predict_proba(x), want, rtol=1e-6, atol=1e-8), "not the weighted average of the members' fold models")
            names = ["no", "yes"] if case["text"] else classes
            for i, v in enumerate(got):
                require(v in names and want[i][names.index(v)] >= want[i].max() - 1e-8, "not the most likely label", v, want[i])
        for i in (0, case["n"] - 1):
            require(np.array_equal(g.predict(x.iloc[[i]]), got[[i]]) if clf else np.allclose(g.predict(x.iloc[[i]]), got[i]), "a row is predicted differently on its own", i)
        restored = pickle.loads(pickle.dumps(ensemble))
        xe = g._basic_encoding_pipeline.transform(x)
        require(np.array_equal(restored.predict(xe), ensemble.predict(xe)), "a restored ensemble predicts differently")
    ctx.nontrivial(len(members) > 1)
    ctx.label(case["metric"], f"models {case['max_models']}", f"sample {case['hillclimb']}")


FACETS = [
    Facet("build", cases, check, quick=900, thorough=30000,
          rule="generated evaluations (ties, errors, repeats, sampled predictions) built into ensembles step by step and at once; non-trivial: some addition could be decided and several members"),
    Facet("fit", search_cases, check_search, quick=90, thorough=2500,
          rule="random searches with real pipelines and the ensemble they end in; non-trivial: several members"),
]
