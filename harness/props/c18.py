"""C18: predictions have the documented shape, labels and scores."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn import metrics as sk
from sklearn.base import clone

from gama.data_loading import X_y_from_file
from gama.genetic_programming.components import Fitness, Individual
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "every class has at least five training rows; columns are numeric or categories",
    "in an array, a category not seen in training counts as missing", "the model may choose any of several equally likely labels",
    "scores are the values of the metric's function (a loss is a positive number), as documented by the tests",
]

LABELS = {"int": [0, 1, 2], "text": ["no", "perhaps", "yes"], "digits": ["0", "1", "2"], "gap": [3, 7, 12], "neg": [-5, -1, 4], "bool": [False, True], "float": [1.0, 2.0, 4.0],
          "case": ["B", "a", "c"]}
LEARNERS = {
    "clf": ["GaussianNB(data)", "LogisticRegression(data, LogisticRegression.C=1.0, LogisticRegression.dual=False)",
            "DecisionTreeClassifier(data, DecisionTreeClassifier.criterion='gini', DecisionTreeClassifier.max_depth=3, min_samples_leaf=2, DecisionTreeClassifier.random_state=3)",
            "GaussianNB(StandardScaler(data, StandardScaler.with_mean=True))",
            "KNeighborsClassifier(MinMaxScaler(data), KNeighborsClassifier.n_neighbors=3, KNeighborsClassifier.p=2, KNeighborsClassifier.weights='distance')"],
    "reg": ["Ridge(data, alpha=1.0, Ridge.fit_intercept=True)",
            "DecisionTreeRegressor(data, DecisionTreeRegressor.max_depth=3, min_samples_leaf=2, DecisionTreeRegressor.random_state=3)",
            "KNeighborsRegressor(StandardScaler(data, StandardScaler.with_mean=False), KNeighborsRegressor.n_neighbors=2, KNeighborsRegressor.p=1, KNeighborsRegressor.weights='uniform')"],
}
CLF_METRICS = {
    "accuracy": sk.accuracy_score, "f1_macro": lambda y, p: sk.f1_score(y, p, average="macro"), "recall_weighted": lambda y, p: sk.recall_score(y, p, average="weighted"),
    "precision_micro": lambda y, p: sk.precision_score(y, p, average="micro"), "neg_log_loss": None, "roc_auc": None,
}
REG_METRICS = {"r2": sk.r2_score, "neg_mean_squared_error": sk.mean_squared_error, "neg_mean_absolute_error": sk.mean_absolute_error,
               "neg_median_absolute_error": sk.median_absolute_error, "explained_variance": sk.explained_variance_score}


@st.composite
def cases(draw):
    task = draw(st.sampled_from(["clf", "clf", "reg"]))
    labels = draw(st.sampled_from(sorted(LABELS)))
    k = 2 if labels == "bool" else draw(st.integers(2, 3))
    metric = draw(st.sampled_from(sorted(CLF_METRICS if task == "clf" else REG_METRICS)))
    if metric == "roc_auc":
        k = 2
    n = draw(st.integers(5 * k + 2, 30))
    m = draw(st.integers(1, 9))
    cols = draw(st.lists(st.sampled_from(["num", "num", "int", "cat2", "cat3", "cat12", "catnum", "missing"]), min_size=1, max_size=4))
    if all(c.startswith("cat") for c in cols):
        cols[0] = "num"
    return {
        "task": task, "labels": labels, "k": k, "metric": metric, "second": draw(st.sampled_from([None, None, "accuracy", "neg_log_loss"])), "n": n, "m": m, "cols": cols,
        "data": draw(st.integers(0, 9999)), "learner": draw(st.integers(0, 4)), "post": draw(st.sampled_from(["best", "best", "best", "ensemble"])),
        "fit": draw(st.sampled_from(["frame", "frame", "array", "csv", "arff"])), "new": draw(st.sampled_from(["frame", "frame", "array", "csv", "arff"])),
        "names": draw(st.sampled_from(["text", "int"])), "index": draw(st.sampled_from(["default", "shuffled", "text"])), "yform": draw(st.sampled_from(["array", "series", "frame", "onehot"])),
        "perm": draw(st.permutations(range(m))), "seed": draw(gen.seeds), "unseen": draw(st.booleans()), "target_at": draw(st.integers(0, 4)), "missing_new": draw(st.booleans()),
        "fraction": draw(st.booleans()),
    }


def table(case, rng, n, new=False):
    """Columns of plain values."""
    out = []
    for kind in case["cols"]:
        if kind == "num":
            col = [round(float(v), 3) for v in rng.normal(size=n)]
        elif kind == "int":
            col = [int(v) for v in rng.permutation(60)[:n] - 20]
            if new and case["fraction"] and case["new"] != "int":
                col = [v + 0.5 for v in col]
        elif kind == "missing":
            col = [round(float(v), 3) if rng.uniform() > 0.3 else None for v in rng.normal(size=n)]
            if not new:
                col[0], col[1] = 0.25, 3.125
        elif kind == "catnum":
            col = [int(v) for v in rng.randint(0, 4, size=n)]
            if not new:
                col[:4] = [0, 1, 2, 3]
        else:
            size = int(kind[3:])
            pool = ["c%d" % i for i in range(size)]
            col = [pool[i] for i in rng.randint(0, size, size=n)]
            if not new:
                for i in range(min(n, size)):
                    col[i] = pool[i]
            elif case["unseen"]:
                col[0] = "other"
        if new and case["missing_new"] and kind != "int":
            col[-1] = None
        out.append(col)
    return out


def is_cat(kind):
    return kind.startswith("cat")


def frame_of(case, columns, names, index=None):
    data = {}
    for name, kind, col in zip(names, case["cols"], columns):
        if is_cat(kind):
            data[name] = pd.Series(pd.Categorical(col), index=index)
        elif kind == "int" and all(isinstance(v, int) for v in col):
            data[name] = pd.Series(np.array(col, dtype=np.int64), index=index)
        else:
            data[name] = pd.Series(np.array([np.nan if v is None else v for v in col], dtype=float), index=index)
    return pd.DataFrame(data, index=index)


def array_of(case, columns):
    text = any(isinstance(v, str) for col in columns for v in col)
    n = len(columns[0])
    if text:
        out = np.empty((n, len(columns)), dtype=object)
        for j, col in enumerate(columns):
            for i, v in enumerate(col):
                out[i, j] = v
        return out
    return np.array([[np.nan if v is None else float(v) for v in col] for col in columns]).T


def write_file(case, kind, path, names, columns, target, classes):
    """An independent writer; the target's position comes from the case. Returns the target's name or None if it is last."""
    at = case["target_at"] % (len(names) + 1)
    all_names, all_cols = list(names), list(columns)
    all_names.insert(at, "goal")
    all_cols.insert(at, target)
    kinds = list(case["cols"])
    kinds.insert(at, "goal")

    def cell(v):
        return "" if v is None else repr(v) if not isinstance(v, str) else v

    with open(path, "w") as fh:
        if kind == "csv":
            fh.write(",".join(all_names) + "\n")
            for row in zip(*all_cols):
                fh.write(",".join(cell(v) for v in row) + "\n")
        else:
            fh.write("@relation test\n")
            for name, k in zip(all_names, kinds):
                if k == "goal" and classes is not None:
                    t = "{" + ",".join(cell(c) for c in classes) + "}"
                elif k == "catnum":
                    t = "{0,1,2,3}"
                elif is_cat(k):
                    t = "{" + ",".join(["c%d" % i for i in range(int(k[3:]))] + ["other"]) + "}"
                else:
                    t = "NUMERIC"
                fh.write(f"@attribute {name} {t}\n")
            fh.write("@data\n")
            for row in zip(*all_cols):
                fh.write(",".join("?" if v is None else cell(v) for v in row) + "\n")
    return "goal" if at < len(names) or case["data"] % 2 else None


def check(case, ctx):
    clf = case["task"] == "clf"
    rng = np.random.RandomState(case["data"])
    n, m = case["n"], case["m"]
    columns, new_columns = table(case, rng, n), table(case, rng, m, new=True)
    classes = LABELS[case["labels"]][: case["k"]] if clf else None
    if clf:
        y = [classes[i] for i in rng.permutation([i % case["k"] for i in range(n)])]
        y_new = [classes[int(i)] for i in rng.randint(0, case["k"], size=m)]
    else:
        y = [round(float(v), 3) for v in rng.normal(size=n)]
        y_new = [round(float(v), 3) for v in rng.normal(size=m)]
    fit_form, new_form = case["fit"], case["new"]
    files = {"csv", "arff"}
    if clf and (fit_form in files) != (new_form in files) and case["labels"] in ("digits", "bool", "int", "gap", "neg", "float"):
        # a file does not say whether 1 is a number or text: compare like with like
        new_form = fit_form
    if clf and fit_form in files and case["labels"] in ("digits", "bool"):
        fit_form = new_form = "frame"
    if fit_form in files and new_form in files:
        new_form = fit_form
    if case["names"] == "int" and fit_form in ("frame", "array") and new_form in ("frame", "array"):
        names = list(range(len(columns)))
    else:
        names = [f"{'zbqamd'[i % 6]}{i}" for i in range(len(columns))]  # not in alphabetical order
    if fit_form == "array" and new_form in files | {"frame"}:
        names = list(range(len(columns)))
        new_form = "frame"
    if fit_form == "arff" and clf:
        y_text = [v if isinstance(v, str) else repr(v) for v in y]
        classes_here = [c if isinstance(c, str) else repr(c) for c in classes]
    else:
        y_text, classes_here = y, classes
    learner = LEARNERS[case["task"]][case["learner"] % len(LEARNERS[case["task"]])]

    def program(operations, start):
        ind = Individual.from_string(learner, g._pset, operations._safe_compile)
        if case["post"] == "ensemble":
            ind = kit.evaluate_all(operations, [ind])[0].individual
        else:
            ind.fitness = Fitness((0.0,), None, 0.0, 0.0)
        return [ind]

    seed_all(case["seed"])
    scoring = case["metric"] if not (clf and case["second"]) else (case["metric"], case["second"])
    post = BestFitPostProcessing() if case["post"] == "best" else EnsemblePostProcessing(ensemble_size=2)
    with kit.clean_gama(), kit.SyncEvaluator():
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring=scoring, search=kit.ProbeSearch(program), post_processing=post,
                          max_total_time=600, max_eval_time=60, regularize_length=False, store="all")
        # ---- fit
        index = {"default": range(n), "shuffled": [int(i) for i in rng.permutation(n)], "text": [f"r{i}" for i in range(n)]}[case["index"]]
        read = {"sep": ",", "header": 0} if "csv" in (fit_form, new_form) else {}
        if fit_form in files:
            path = os.path.join(os.getcwd(), f"train.{fit_form}")
            target = write_file(case, fit_form, path, names, columns, y, classes)
            g.fit_from_file(path, target_column=target, **read)
            x_train, _ = X_y_from_file(path, split_column=target, **read)
        else:
            x_train = frame_of(case, columns, names, index) if fit_form == "frame" else array_of(case, columns)
            target_data = {"array": np.array(y), "series": pd.Series(y, index=range(5, 5 + n)), "frame": pd.DataFrame({"t": y}),
                           "onehot": np.array([[float(v == c) for c in classes] for v in y]) if clf and case["labels"] == "int" else np.array(y)}[case["yform"]]
            g.fit(x_train, target_data)
        # ---- new data
        order = list(case["perm"])
        if new_form in files:
            new_path = os.path.join(os.getcwd(), f"new.{new_form}")
            new_target = write_file(case, new_form, new_path, names, new_columns, y_new, classes)
            x_new, _ = X_y_from_file(new_path, split_column=new_target, **read)
        elif new_form == "frame":
            x_new = frame_of(case, new_columns, names, [f"n{i}" for i in range(m)])
        else:
            x_new = array_of(case, new_columns)
        before = x_new.copy()
        got = g.predict(x_new)
        require(isinstance(got, np.ndarray) and got.shape == (m,), "not one prediction per row", type(got), np.shape(got))
        take = (lambda rows: x_new[rows]) if isinstance(x_new, np.ndarray) else (lambda rows: x_new.iloc[rows])

        def close(a, b):
            return all(u == v for u, v in zip(a, b)) if clf else np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-9, atol=1e-9)

        require(close(g.predict(take(order)), got[order]), "predictions depend on the order of rows")
        require(close(g.predict(take([0])), got[:1]), "a prediction depends on the other rows")
        if clf:
            require(all(v in classes_here for v in got), "a prediction is no training label", list(got), classes_here)
            require(all(isinstance(v, str) == isinstance(classes_here[0], str) for v in got), "predictions are of another type than the labels", list(got))
            proba = np.asarray(g.predict_proba(x_new))
            require(proba.shape == (m, case["k"]), "not one column per label", proba.shape)
            require((proba >= 0).all() and np.allclose(proba.sum(axis=1), 1), "probabilities do not sum to one", proba)
            ordered = sorted(classes_here)
            for i, v in enumerate(got):
                require(proba[i][ordered.index(v)] >= proba[i].max() - 1e-9, "the predicted label is not the most likely one", v, proba[i], ordered)
            require(np.allclose(np.asarray(g.predict_proba(take(order))), proba[order]), "probabilities depend on the order of rows")
        # ---- the same as the model, trained independently on the labels themselves
        encode = g._basic_encoding_pipeline.transform
        if isinstance(x_new, pd.DataFrame):
            x_frame = x_new
        else:  # in an array an unseen category counts as missing
            seen_columns = [[None if is_cat(k) and v == "other" else v for v in col] for k, col in zip(case["cols"], new_columns)]
            x_frame = frame_of(case, seen_columns, list(g._inferred_dtypes.index))
        if case["post"] == "best":
            xt = encode(x_train) if isinstance(x_train, pd.DataFrame) else g._x
            reference = clone(g.model).fit(xt, y_text)
            want = reference.predict(encode(x_frame))
            require(close(want, got), "predictions are not those of the pipeline trained on the labels", list(want), list(got))
            if clf:
                require(list(reference.classes_) == ordered, "reference classes", list(reference.classes_), ordered)
                require(np.allclose(reference.predict_proba(encode(x_frame)), proba, rtol=1e-7, atol=1e-9), "probabilities are not those of the pipeline trained on the labels")
        else:
            want = g.model.predict(encode(x_frame))
            if clf and isinstance(classes_here[0], str):
                want = [ordered[int(v)] for v in want]
            require(close(want, got), "predictions are not those of the model", list(want), list(got))
        # ---- the same from another container
        known = not (case["unseen"] and any(is_cat(k) for k in case["cols"]))  # in an array an unseen category counts as missing
        if fit_form in ("frame",) and known and not any(k == "catnum" for k in case["cols"]):
            other = array_of(case, new_columns)
            if not isinstance(x_new, np.ndarray):
                require(close(g.predict(other), got), "an array and a frame of the same values are predicted differently", list(g.predict(other)), list(got))
                ctx.label("array and frame")
        # ---- scores
        truth = [repr(v) if fit_form == "arff" and clf and not isinstance(v, str) else v for v in y_new]
        want_score, defined = expected_score(case, clf, truth, got, proba if clf else None, ordered if clf else None)
        if defined:
            for form in (np.array(truth), pd.Series(truth, index=range(9, 9 + m))):
                s = g.score(x_new, form)
                require(np.isclose(s, want_score, rtol=1e-7, atol=1e-9, equal_nan=True), "not the score of the predictions", s, want_score)
            ctx.label("scored")
        if new_form in files:
            require(close(g.predict_from_file(new_path, target_column=new_target, **read), got), "predictions from a file differ from those of its contents")
            if clf and read_without_help(new_path, new_target, x_new):
                require(np.allclose(g.predict_proba_from_file(new_path, target_column=new_target), proba), "probabilities from a file differ from those of its contents")
            if defined:
                s = g.score_from_file(new_path, target_column=new_target, **read)
                require(np.isclose(s, want_score, rtol=1e-7, atol=1e-9, equal_nan=True), "the score of a file differs from that of its contents", s, want_score)
        if isinstance(x_new, np.ndarray):
            require(all(gen.same(a, b) for a, b in zip(before.ravel(), x_new.ravel())), "the data passed in was changed")
        else:
            require(gen.frames_identical(before, x_new), "the data passed in was changed")
    ctx.nontrivial(m > 1 and len(set(map(str, got))) > 1)
    ctx.label(f"fit {fit_form}, new {new_form}", case["post"], case["metric"], "labels " + case["labels"] if clf else "regression")


def read_without_help(path, target, x):
    """Does loading find delimiter and header by itself?"""
    try:
        return gen.frames_identical(X_y_from_file(path, split_column=target)[0], x)
    except Exception:
        return False


def expected_score(case, clf, truth, predictions, proba, ordered):
    if not clf:
        if len(truth) < 2 and case["metric"] in ("r2", "explained_variance"):
            return None, False
        return REG_METRICS[case["metric"]](truth, predictions), True
    if case["metric"] == "neg_log_loss":
        picked = [max(min(p[ordered.index(t)], 1 - 1e-15), 1e-15) for t, p in zip(truth, proba)]
        if min(picked) <= 1e-14:
            return sk.log_loss(truth, proba, labels=ordered), True
        return float(-np.mean(np.log(picked))), True
    if case["metric"] == "roc_auc":
        if len(set(truth)) < 2:
            return None, False
        pos = [p[1] for t, p in zip(truth, proba) if t == ordered[1]]
        neg = [p[1] for t, p in zip(truth, proba) if t == ordered[0]]
        return float(np.mean([1.0 if a > b else 0.5 if a == b else 0.0 for a in pos for b in neg])), True
    return CLF_METRICS[case["metric"]](truth, list(predictions)), True


FACETS = [
    Facet("predict", cases, check, quick=800, thorough=20000,
          rule="datasets, label types, containers, files, metrics and both post-processing methods through fit, predict and score; non-trivial: several rows with different predictions"),
]
