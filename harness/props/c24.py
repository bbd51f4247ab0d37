"""C24: metrics are scikit-learn's, maximised, and match the task."""
import numpy as np
from hypothesis import strategies as st
from sklearn import metrics as sk
from sklearn.metrics import get_scorer
from sklearn.model_selection import StratifiedKFold, cross_val_score
from sklearn.pipeline import Pipeline

from gama.utilities.metrics import Metric, MetricType, scoring_to_metric
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["averages over samples (multi-label) are not used: gama has no multi-label task",
               "average precision may be stated to need probabilities or not: scikit-learn computes it from either"]

RAW = {
    "accuracy": (sk.accuracy_score, {}, 1, "label"),
    "roc_auc": (sk.roc_auc_score, {}, 1, "threshold"),
    "average_precision": (sk.average_precision_score, {}, 1, "threshold"),
    "neg_log_loss": (sk.log_loss, {}, -1, "proba"),
    "explained_variance": (sk.explained_variance_score, {}, 1, "reg"),
    "r2": (sk.r2_score, {}, 1, "reg"),
    "neg_mean_absolute_error": (sk.mean_absolute_error, {}, -1, "reg"),
    "neg_mean_squared_error": (sk.mean_squared_error, {}, -1, "reg"),
    "neg_median_absolute_error": (sk.median_absolute_error, {}, -1, "reg"),
    "neg_mean_squared_log_error": (sk.mean_squared_log_error, {}, -1, "reg+"),
}
for _m, _f in (("precision", sk.precision_score), ("recall", sk.recall_score), ("f1", sk.f1_score)):
    for _a in ("macro", "micro", "weighted"):
        RAW[f"{_m}_{_a}"] = (_f, {"average": _a}, 1, "label")

NAMES = sorted(RAW)


class Fixed:
    """A fitted model with given answers."""

    _estimator_type = "classifier"

    def __init__(self, classes=None, labels=None, proba=None, values=None):
        if classes is not None:
            self.classes_ = np.array(classes)
            self._labels, self._proba = np.array(labels), np.array(proba)
            self.predict_proba = lambda X: self._proba
            self.predict = lambda X: self._labels
        else:
            self._estimator_type = "regressor"
            self.predict = lambda X: np.array(values)


@st.composite
def score_cases(draw):
    name = draw(st.sampled_from(NAMES))
    kind = RAW[name][3]
    n = draw(st.integers(2, 12))
    case = {"name": name, "n": n, "as": draw(st.sampled_from(["name", "scorer", "metric"]))}
    if kind.startswith("reg"):
        v = st.floats(0 if kind == "reg+" else -50, 50).map(lambda f: round(f, 3))
        case["y"] = draw(st.lists(v, min_size=n, max_size=n))
        case["p"] = draw(st.lists(v, min_size=n, max_size=n))
        return case
    k = 2 if kind == "threshold" else draw(st.integers(2, 4))
    text = draw(st.booleans()) and name != "average_precision"
    classes = ["a", "b", "c", "d"][:k] if text else [0, 1, 2, 3][:k]
    case["classes"] = classes
    n = case["n"] = max(n, k)
    y = list(draw(st.lists(st.sampled_from(classes), min_size=n, max_size=n)))
    for i, c in enumerate(draw(st.permutations(classes))):
        y[i] = c
    case["y"] = y
    case["labels"] = draw(st.lists(st.sampled_from(classes), min_size=n, max_size=n))
    rows = draw(st.lists(st.lists(st.integers(1, 20), min_size=k, max_size=k), min_size=n, max_size=n))
    case["proba"] = [[v / sum(r) for v in r] for r in rows]
    return case


def metric_of(case):
    name = case["name"]
    if case["as"] == "name":
        return Metric(name)
    if case["as"] == "scorer":
        return Metric(get_scorer(name))
    (m,) = scoring_to_metric(Metric(name))
    return m


def close(a, b):
    return bool(np.isclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True))


def check_score(case, ctx):
    fn, kwargs, sign, kind = RAW[case["name"]]
    metric = metric_of(case)
    y = np.array(case["y"])
    regression = kind.startswith("reg")
    require(metric.name == case["name"], "another name", metric.name)
    require(metric.task_type == (MetricType.REGRESSION if regression else MetricType.CLASSIFICATION), "another task", metric.task_type)
    if case["name"] != "average_precision":
        require(metric.requires_probabilities == (case["name"] in ("neg_log_loss", "roc_auc")), "need for probabilities stated wrongly", case["name"])
    if regression:
        given, model = np.array(case["p"]), Fixed(values=case["p"])
        perfect = y
    else:
        p = np.array(case["proba"])
        model = Fixed(case["classes"], case["labels"], p)
        onehot = np.array([[float(c == v) for c in case["classes"]] for v in case["y"]])
        given = {"label": np.array(case["labels"]), "proba": p, "threshold": p[:, 1]}[kind]
        perfect = {"label": y, "proba": onehot, "threshold": onehot[:, 1]}[kind]
    raw = fn(y, given, **kwargs)
    require(close(metric.score(y, given), raw), "not the score of scikit-learn", metric.score(y, given), raw)
    require(close(metric.maximizable_score(y, given), sign * raw), "not oriented so that higher is better", metric.maximizable_score(y, given), sign * raw)
    best = metric.maximizable_score(y, perfect)
    require(best >= metric.maximizable_score(y, given) - 1e-9, "a perfect prediction is not best", best)
    X = np.zeros((len(y), 1))
    want = get_scorer(case["name"])(model, X, y)
    require(close(metric(model, X, y), want), "a model is scored differently than by scikit-learn", metric(model, X, y), want)
    require(close(want, sign * raw), "the scorer and the predictions disagree")
    if not regression and kind == "proba":
        # as an ensemble does it: targets as indicators
        require(close(metric.score(onehot, p), raw), "targets as indicators score differently", metric.score(onehot, p), raw)
    ctx.label(case["name"], case["as"])
    ctx.nontrivial(not np.array_equal(np.asarray(given), np.asarray(perfect)))


# ------------------------------------------------------------------ collections

@st.composite
def collection_cases(draw):
    kind = draw(st.sampled_from(["str", "metric", "tuple", "list", "mixed", "generator", "dict", "bad"]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    bad = draw(st.sampled_from(["int", "none", "unknown", "list with int", "list with none", "scorer", "list with scorer function", "empty text", "float", "foreign", "list with scorer", "own scorer"]))
    return {"kind": kind, "names": names, "bad": bad, "at": draw(st.integers(0, 4))}


def check_collection(case, ctx):
    names = case["names"]
    kind = case["kind"]
    if kind == "bad":
        mixed = list(names)
        odd = {"list with int": 3, "list with none": None, "list with scorer": get_scorer("r2"), "list with scorer function": sk.accuracy_score}.get(case["bad"])
        mixed.insert(case["at"] % (len(mixed) + 1), odd)
        value = {"int": 3, "none": None, "unknown": "accuracyy", "scorer": get_scorer("accuracy"), "empty text": "", "float": 0.5,
                 "foreign": "adjusted_rand_score", "own scorer": None}.get(case["bad"], mixed)
        ctx.nontrivial()
        ctx.label("bad " + case["bad"])
        try:
            result = scoring_to_metric(value) if case["bad"] != "own scorer" else (Metric(sk.make_scorer(sk.accuracy_score, normalize=False)),)
        except (TypeError, ValueError, KeyError):
            return
        require(False, "something that is no supported metric was accepted", case["bad"], [m.name for m in result])
    metrics = [Metric(n) for n in names]
    value = {
        "str": names[0], "metric": metrics[0], "tuple": tuple(names), "list": metrics, "mixed": [m if i % 2 else n for i, (m, n) in enumerate(zip(metrics, names))],
        "generator": (n for n in names), "dict": dict.fromkeys(names),
    }[kind]
    result = scoring_to_metric(value)
    want = names[:1] if kind in ("str", "metric") else names
    require(isinstance(result, tuple) and all(isinstance(m, Metric) for m in result), "not a tuple of metrics", result)
    require([m.name for m in result] == want, "metrics lost, added or reordered", [m.name for m in result], want)
    if kind in ("metric", "list"):
        require(all(a is b for a, b in zip(result, metrics)), "a metric was replaced")
    ctx.label(kind)
    ctx.nontrivial(len(want) > 1)


# ------------------------------------------------------------------ what is optimised

@st.composite
def objective_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    pool = ["accuracy", "f1_macro", "neg_log_loss", "precision_weighted", "recall_micro", "roc_auc", "f1_weighted", "average_precision"] if task == "clf" else \
        ["r2", "neg_mean_squared_error", "neg_mean_absolute_error", "neg_median_absolute_error", "explained_variance"]
    return {"task": task, "names": draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True)), "length": draw(st.booleans()),
            "form": draw(st.sampled_from(["tuple", "list", "metrics"])), "seed": draw(gen.seeds), "data": draw(st.integers(0, 60)), "n": draw(st.integers(15, 30))}


def check_objective(case, ctx):
    """Every evaluation has one score per metric, in the given order, and the negated length when regularised."""
    names = case["names"]
    value = {"tuple": tuple(names), "list": list(names), "metrics": [Metric(n) for n in names]}[case["form"]]
    if len(names) == 1 and case["form"] == "tuple":
        value = names[0]
    heard = []

    def program(operations, start):
        with_evaluations = kit.evaluate_all(operations, [operations.individual() for _ in range(3)])
        return [e.individual for e in with_evaluations]

    seed_all(case["seed"])
    x, y = kit.numeric_xy(case["task"], case["n"], 4, case["data"])
    with kit.clean_gama(), kit.SyncEvaluator():
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring=value, search=kit.ProbeSearch(program),
                          post_processing=kit.RecordingPostProcessing(), regularize_length=case["length"], max_eval_time=60, max_total_time=600)
        g.evaluation_completed(heard.append)
        g.fit(x, y)
    require(len(heard) == 3, "evaluations lost", len(heard))
    for e in heard:
        require(len(e.score) == len(names) + case["length"], "not one score per metric (and length)", e.score, names)
        require(e.individual.fitness.values == e.score, "fitness differs from the score")
        if case["length"]:
            require(e.score[-1] == -len(e.individual.primitives), "the last score is not the negated length", e.score)
        if e.error is not None:
            continue
        splitter = StratifiedKFold if case["task"] == "clf" else None
        for name, got in zip(names, e.score):
            with np.errstate(all="ignore"):
                folds = cross_val_score(Pipeline(e.individual.pipeline.steps), x, y, scoring=name, cv=splitter(5) if splitter else 5)
            require(np.isclose(folds.mean(), got, rtol=1e-9, atol=1e-9), "a score is not that of its metric", name, got, folds.mean())
            ctx.nontrivial(len(names) > 1)
    ctx.label(f"{len(names)} metrics", "regularised" if case["length"] else "not regularised")


FACETS = [
    Facet("score", score_cases, check_score, quick=4000, thorough=80000,
          rule="every supported metric on random truths, labels, probabilities and values; non-trivial: the prediction is not perfect"),
    Facet("collections", collection_cases, check_collection, quick=800, thorough=10000,
          rule="metrics given as text, objects and collections of them, and things that are none; non-trivial: several metrics, or rejected"),
    Facet("objectives", objective_cases, check_objective, quick=100, thorough=2500,
          rule="evaluations of random pipelines under one to three metrics; non-trivial: several metrics and a successful evaluation"),
]
