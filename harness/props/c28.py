"""C28: default settings work on any supported data."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from gama.configuration.classification import clf_config
from gama.configuration.regression import reg_config
from gama.genetic_programming.components import Individual
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from harness import gen, kit
from harness.core import Facet, Violation, require, seed_all

ASSUMPTIONS = [
    "features are numeric, boolean or categorical columns; every class has at least five rows",
    "what a learner by itself can not do is no fault: which values it accepts together, negative features for MultinomialNB, more neighbours than rows",
]

# Pipelines of the default spaces that can be trained on any finite numbers
PLAIN = {
    "clf": {
        "GaussianNB": {}, "BernoulliNB": {"alpha": [0.001, 1.0, 100.0], "fit_prior": [True, False]},
        "DecisionTreeClassifier": {"criterion": ["gini", "entropy"], "max_depth": [1, 4, 10], "min_samples_split": [2, 20], "min_samples_leaf": [1, 20]},
        "KNeighborsClassifier": {"n_neighbors": [1, 5], "weights": ["uniform", "distance"], "p": [1, 2]},
        "LogisticRegression": {"penalty": ["l2"], "C": [0.0001, 1.0], "dual": [False], "solver": ["lbfgs"]},
    },
    "reg": {
        "DecisionTreeRegressor": {"max_depth": [1, 4, 10], "min_samples_split": [2, 20], "min_samples_leaf": [1, 20]},
        "KNeighborsRegressor": {"n_neighbors": [1, 5], "weights": ["uniform", "distance"], "p": [1, 2]},
        "LinearSVR": {"loss": ["epsilon_insensitive"], "dual": [True], "tol": [0.1], "C": [0.001], "epsilon": [1.0]},
    },
}
SHARED = {"clf": ("alpha", "fit_prior", "min_samples_split", "min_samples_leaf"), "reg": ()}
BEFORE = ["", "", "", "StandardScaler", "MinMaxScaler", "RobustScaler", "MaxAbsScaler", "Normalizer"]

columns = st.sampled_from(["float", "int", "bool", "float missing", "constant", "tiny", "huge", "all missing", "one value missing", "cat1", "cat2", "cat3", "cat9", "cat15", "cat missing", "cat of numbers",
                           "cat of bools", "cat unused", "cat ordered", "few missing"])


@st.composite
def cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    learners = sorted(PLAIN[task])
    pipelines = []
    for _ in range(draw(st.integers(1, 3))):
        name = draw(st.sampled_from(learners))
        pipelines.append([name, {k: draw(st.sampled_from(v)) for k, v in sorted(PLAIN[task][name].items())}, draw(st.sampled_from(BEFORE))])
    return {
        "task": task, "columns": draw(st.lists(columns, min_size=1, max_size=6)), "n": draw(st.integers(30, 70)), "m": draw(st.integers(1, 8)), "data": draw(st.integers(0, 9999)),
        "k": draw(st.integers(2, 4)), "labels": draw(st.sampled_from(["int", "text", "bool", "cat", "float"])), "pipelines": pipelines, "random": draw(st.integers(0, 2)),
        "new": draw(st.sampled_from(["same", "unseen", "missing", "both"])), "post": draw(st.sampled_from(["best", "best", "ensemble"])), "seed": draw(gen.seeds),
        "index": draw(st.sampled_from(["default", "shifted", "text", "repeated"])), "form": draw(st.sampled_from(["frame", "frame", "frame", "array"])),
        "names": draw(st.sampled_from(["plain", "plain", "int", "from one", "long"])),
    }


def column(kind, n, rng, index, new=None):
    """A column of training data, or of new data (`new` says what is unusual about it)."""
    missing = new in ("missing", "both")
    unseen = new in ("unseen", "both")
    if kind.startswith("cat"):
        size = {"cat1": 1, "cat2": 2, "cat3": 3, "cat9": 9, "cat15": 15}.get(kind, 3)
        pool = {"cat of numbers": [3, 1, 7], "cat of bools": [True, False]}.get(kind, [f"v{i}" for i in range(size)])
        values = [pool[i % len(pool)] for i in rng.permutation(n)]
        if kind == "cat missing" and new is None:
            values = [None if rng.uniform() < 0.3 else v for v in values]
        if missing:
            values[-1] = None
        categories = list(pool) + (["never"] if kind == "cat unused" else [])
        if unseen:
            other = 99 if kind == "cat of numbers" else "other"
            categories = categories + [other]
            values[0] = other
        return pd.Series(pd.Categorical(values, categories=categories, ordered=kind == "cat ordered"), index=index)
    if kind == "int":
        return pd.Series(rng.randint(-50, 50, size=n), index=index)
    if kind == "bool":
        return pd.Series(rng.randint(0, 2, size=n).astype(bool), index=index)
    values = {"constant": np.full(n, 4.0), "tiny": rng.normal(size=n) * 1e-12, "huge": rng.normal(size=n) * 1e9, "all missing": np.full(n, np.nan)}.get(kind)
    if values is None:
        values = np.round(rng.normal(size=n), 3)
    if kind == "float missing":
        values[rng.uniform(size=n) < 0.3] = np.nan
    if kind == "one value missing" and n > 1:
        values[rng.randint(0, n)] = np.nan
    if kind == "few missing":
        values[: n // 10] = np.nan
    if missing:
        values[-1] = np.nan
    return pd.Series(values, index=index)


def text_of(task, name, values, before):
    inner = "data"
    if before:
        inner = "Normalizer(data, Normalizer.norm='l2')" if before == "Normalizer" else f"{before}(data)"
    parts = [f"{k if k in SHARED[task] and (name, k) in USES_SHARED else f'{name}.{k}'}={v!r}" for k, v in sorted(values.items())]
    return f"{name}({', '.join([inner] + parts)})"


USES_SHARED = {("BernoulliNB", "alpha"), ("BernoulliNB", "fit_prior"), ("DecisionTreeClassifier", "min_samples_split"), ("DecisionTreeClassifier", "min_samples_leaf")}


def individual(task, gama, operations, name, values, before):
    """The pipeline, whether or not the space shares the definition of a hyperparameter."""
    return Individual.from_string(text_of(task, name, values, before), gama._pset, operations._safe_compile)


def check(case, ctx):
    task, n, m = case["task"], case["n"], case["m"]
    clf = task == "clf"
    rng = np.random.RandomState(case["data"])
    index = {"default": range(n), "shifted": range(7, 7 + n), "text": [f"r{i}" for i in range(n)], "repeated": [i // 2 for i in range(n)]}[case["index"]]
    kinds = list(case["columns"])
    if case["form"] == "array":
        kinds = [k for k in kinds if not k.startswith("cat")]
    if not any(k in ("float", "int", "cat2", "cat3", "cat9", "float missing", "few missing") for k in kinds):
        kinds.append("float")  # something to learn from
    names = {"plain": "c{}".format, "int": int, "from one": lambda i: i + 1, "long": "a column (no. {}), as measured".format}[case["names"]]
    x = pd.DataFrame({names(i): column(k, n, rng, index) for i, k in enumerate(kinds)}, index=index)
    new = pd.DataFrame({names(i): column(k, m, rng, range(m), case["new"]) for i, k in enumerate(kinds)})
    if clf:
        k = 2 if case["labels"] == "bool" else case["k"]
        labels = {"int": [4, 2, 9, 0], "text": ["no", "yes", "maybe", "No"], "bool": [True, False], "cat": ["a", "b", "c", "d"], "float": [0.5, 1.5, 2.5, 3.5]}[case["labels"]][:k]
        if case["labels"] == "float":
            labels = [1.0, 2.0, 3.0, 5.0][:k]
        y = [labels[i % k] for i in rng.permutation(n)]
        target = pd.Series(pd.Categorical(y) if case["labels"] == "cat" else y, index=index)
    else:
        y = np.round(rng.normal(size=n) * 10, 2)
        target = pd.Series(y, index=index)
    if case["form"] == "array":
        x, new, target = x.to_numpy(), new.to_numpy(), target.to_numpy()
    evaluated = []

    def program(operations, start):
        given = [individual(task, g, operations, *p) for p in case["pipelines"]]
        evaluated.extend(kit.evaluate_all(operations, given))
        for _ in range(case["random"]):
            candidates = [operations.individual() for _ in range(20)]
            quick = [c for c in candidates if not any(w in c.pipeline_str() for w in ("Boost", "Forest", "ExtraTrees", "CV("))]
            kit.evaluate_all(operations, (quick or candidates)[:1])
        return [e.individual for e in evaluated]

    seed_all(case["seed"])
    post = BestFitPostProcessing() if case["post"] == "best" else EnsemblePostProcessing(ensemble_size=3)
    heard = []
    with kit.clean_gama(), kit.SyncEvaluator():
        g = kit.make_gama(task, search=kit.ProbeSearch(program), post_processing=post, max_total_time=3600, max_eval_time=600, store="all")
        g.evaluation_completed(heard.append)
        g.fit(x, target)
        for e, p in zip(evaluated, case["pipelines"]):
            require(e.error is None, "a plain pipeline can not be evaluated", text_of(task, *p), e.error)
            require(len(e.score) == 2 and all(math.isfinite(v) for v in e.score), "no finite score", text_of(task, *p), e.score)
        require(len(heard) == len(case["pipelines"]) + case["random"], "evaluations are lost", len(heard))
        for e in heard:
            require((e.error is None) == math.isfinite(e.score[0]), "a failure without an error or the other way round", e.score, e.error)
        for data in (x, new):
            p = np.asarray(g.predict(data))
            require(p.shape == (len(data),), "not one prediction per row", p.shape)
            if clf:
                require(all(v in labels for v in p), "a prediction is no label", list(p))
                proba = np.asarray(g.predict_proba(data))
                require(proba.shape == (len(data), k) and np.allclose(proba.sum(axis=1), 1), "no probability per label", proba.shape)
            else:
                require(np.isfinite(p).all(), "a prediction is not finite", p)
        s = g.score(x, target)
        require(math.isfinite(s), "no finite score", s)
    ctx.nontrivial(len(set(kinds)) > 1)
    ctx.label(*{k for k in kinds}, case["post"], "labels " + case["labels"] if clf else "regression")


# ------------------------------------------------------------------------------------- the default spaces


@st.composite
def value_cases(draw):
    return {"task": draw(st.sampled_from(["clf", "reg"])), "component": draw(st.integers(0, 60))}


def check_value(case, ctx):
    """Each value of the default spaces is one its component accepts."""
    from sklearn.base import is_classifier, is_regressor

    config = clf_config if case["task"] == "clf" else reg_config
    components = sorted((k for k in config if not isinstance(k, str)), key=lambda c: c.__name__)
    for component in [components[i % len(components)] for i in range(case["component"], case["component"] + 4)]:
        learner = hasattr(component, "predict") and not hasattr(component, "transform")
        if learner:
            require((is_classifier if case["task"] == "clf" else is_regressor)(component()), "a learner for another task", component)
        else:
            require(hasattr(component, "transform"), "neither a learner nor preprocessing", component)
        component()._validate_params()
        for name in sorted(set(config[component]) - {"param_check"}):
            values = list(config[component][name]) or list(config[name])
            require(len(values) > 0, "no value for a hyperparameter", component, name)
            for value in values:
                try:
                    component(**{name: value})._validate_params()
                except Exception as e:
                    raise Violation(f"a value of the default space is not accepted: {component.__name__}({name}={value!r}): {e}")
                ctx.nontrivial(True)
        ctx.label(component.__name__)


FACETS = [
    Facet("data", cases, check, quick=500, thorough=12000,
          rule="generated tables of all supported kinds of columns through fit with the default search space, evaluation, prediction and score; non-trivial: columns of different kinds"),
    Facet("space", value_cases, check_value, quick=400, thorough=2000, rule="values of the default search spaces; non-trivial: the component has hyperparameters"),
]
