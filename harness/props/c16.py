"""C16: the final model is the best pipeline found, trained on all data."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin, clone

from gama.genetic_programming.components import Fitness
from gama.postprocessing import BestFitPostProcessing
from gama.search_methods import AsyncEA, RandomSearch
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "the search returns at least one successfully evaluated individual",
    "several individuals with the same best scores are equally good choices",
]

FITS = []


class RecScale(TransformerMixin, BaseEstimator):
    def __init__(self, by=1):
        self.by = by

    def fit(self, X, y=None):
        FITS.append(("RecScale", self.by, np.array(X, dtype=float), list(y)))
        self.fitted_ = True
        return self

    def transform(self, X):
        return np.asarray(X, dtype=float)


class RecClassifier(ClassifierMixin, BaseEstimator):
    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        FITS.append(("learner", self.salt, np.array(X, dtype=float), list(y)))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        return np.repeat(self.classes_[0], len(X))

    def predict_proba(self, X):
        return np.tile(np.ones(len(self.classes_)) / len(self.classes_), (len(X), 1))


class RecRegressor(RegressorMixin, BaseEstimator):
    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        FITS.append(("learner", self.salt, np.array(X, dtype=float), list(y)))
        self.fitted_ = True
        return self

    def predict(self, X):
        return np.zeros(len(X))


SCORES = {1: ["accuracy"], 2: ["accuracy", "neg_log_loss"], 3: ["accuracy", "f1_macro", "neg_log_loss"]}
REG_SCORES = {1: ["r2"], 2: ["r2", "neg_mean_squared_error"], 3: ["r2", "neg_mean_squared_error", "neg_median_absolute_error"]}


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(4, 14), st.integers(4, 14), st.integers(15, 130)))
    n_metrics = draw(st.sampled_from([1, 1, 2, 3]))
    task = draw(st.sampled_from(["clf", "reg"]))
    value = st.one_of(st.integers(-3, 3).map(float), st.integers(-3, 3).map(float), st.just(float("-inf")), st.sampled_from([0.25, 1e-9, -1e9]))
    k = draw(st.integers(1, 9))
    results = [{"scores": draw(st.lists(value, min_size=n_metrics, max_size=n_metrics)), "salt": i, "pre": draw(st.integers(0, 2))} for i in range(k)]
    if draw(st.booleans()):  # close scores: only later metrics or the length differ
        for r in results:
            r["scores"][0] = results[0]["scores"][0] if results[0]["scores"][0] > -10 else 1.0
    labels = draw(st.sampled_from(["int", "str", "bool", "gap"])) if task == "clf" else "float"
    return {
        "task": task, "results": results, "n": n, "labels": labels,
        "unlabelled": draw(st.one_of(st.just([]), st.lists(st.integers(0, n - 1), max_size=2, unique=True))),
        "missing_x": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 1)), max_size=3)),
        "cat": draw(st.booleans()), "metrics": n_metrics, "length": draw(st.booleans()), "index": draw(gen.index_strategy(n)),
        "container": draw(st.sampled_from(["frame", "array"])), "seed": draw(gen.seeds), "post": draw(st.sampled_from(["best", "best", "record"])),
        "yseed": draw(st.integers(0, 99)),
    }


LABELS = {"int": [0, 1, 2], "str": ["no", "yes", "perhaps"], "bool": [True, False], "gap": [7, 3, 12]}


def data_of(case):
    rng = np.random.RandomState(case["yseed"])
    n = case["n"]
    index = gen.make_index(case["index"], n)
    x = pd.DataFrame({"row": np.arange(n, dtype=float) + 0.25, "v": np.round(rng.normal(size=n), 2)}, index=index)
    for r, c in case["missing_x"]:
        if c == 1:
            x.iloc[r, 1] = np.nan
    if x["v"].isnull().all():
        x.iloc[0, 1] = 1.0
    if case["cat"] and case["container"] == "frame":
        x["c"] = pd.Series(pd.Categorical([["a", "b", "c"][i % 3] for i in range(n)]), index=index)
    if case["labels"] == "float":
        y = [round(float(v), 2) for v in rng.normal(size=n)]
    else:
        pool = LABELS[case["labels"]]
        y = [pool[i % len(pool)] for i in rng.permutation(n)]
    keep = [i for i in range(n) if i not in case["unlabelled"]]
    if case["labels"] != "float" and len({y[i] for i in keep}) < 2 or len(keep) < 2:
        keep = list(range(n))
    targets = [y[i] if i in keep else None for i in range(n)]
    if case["container"] == "array":
        return x.to_numpy(), np.array(targets, dtype=object if len(keep) < n or case["labels"] == "str" else None), keep, y
    return x, pd.Series(targets, index=index, dtype=object if len(keep) < n and case["labels"] != "float" else None), keep, y


def check_select(case, ctx):
    clf = case["task"] == "clf"
    learner = RecClassifier if clf else RecRegressor
    space = {RecScale: {"by": [1, 2, 3]}, learner: {"salt": list(range(12))}}
    x, y, keep, labels = data_of(case)
    made = []

    def program(operations, start):
        from gama.genetic_programming.components import Individual

        for r in case["results"]:
            inner = "data"
            for _ in range(r["pre"]):
                inner = f"RecScale({inner}, RecScale.by=2)"
            ind = Individual.from_string(f"{learner.__name__}({inner}, {learner.__name__}.salt={r['salt']})", gama._pset, operations._safe_compile)
            values = tuple(r["scores"]) + ((-(r["pre"] + 1),) if case["length"] else ())
            ind.fitness = Fitness(values, None, 0.0, 0.0)
            made.append((values, r["salt"], r["pre"], ind))
        return [m[3] for m in made]

    post = BestFitPostProcessing() if case["post"] == "best" else kit.RecordingPostProcessing()
    names = (SCORES if clf else REG_SCORES)[case["metrics"]]
    seed_all(case["seed"])
    with kit.clean_gama():
        gama = kit.make_gama(case["task"], search_space=space, scoring=names[0] if len(names) == 1 else tuple(names), search=kit.ProbeSearch(program), post_processing=post,
                             regularize_length=case["length"], max_total_time=300)
        FITS.clear()
        result = gama.fit(x, y)
        require(result is gama, "fit does not return the object", type(result))
    best = max(m[0] for m in made)
    good = [m for m in made if m[0] == best]
    if clf and case["labels"] == "str":
        order = sorted({labels[i] for i in keep})
        want_y = [order.index(labels[i]) for i in keep]
    else:
        want_y = [labels[i] for i in keep]
    ctx.nontrivial(len({m[0] for m in made}) > 1)
    ctx.label("post-processing " + case["post"], "ties" if len(good) > 1 else "one best", f"{case['metrics']} metrics",
              "unlabelled rows" if len(keep) < case["n"] else "all labelled")
    if case["post"] == "record":
        calls = [c for c in post.calls if c[0] == "post_process"]
        require(len(calls) == 1, "post-processing did not run once", len(calls))
        _, px, py, timeout, selection = calls[0]
        values = [i.fitness.values for i in selection]
        require(values == sorted((m[0] for m in made), reverse=True), "individuals are not handed over best first", values)
        require({str(i._id) for i in selection} == {str(m[3]._id) for m in made} and len(selection) == len(made), "individuals lost or added")
        require([float(v) for v in px.iloc[:, 0]] == [i + 0.25 for i in keep], "post-processing gets other rows", list(px.iloc[:, 0]))
        require([int(v) if isinstance(v, (np.integer, bool, np.bool_)) else v for v in py] == want_y, "post-processing gets other labels", list(py), want_y)
        require(0 < timeout <= 300, "post-processing gets another time than what remains", timeout)
        require(gama.model == "model", "the model is not what post-processing made")
        return
    # the learner was trained once, on all rows, as described by the best individual
    fits = [f for f in FITS if f[0] == "learner"]
    require(len(fits) == 1, "not exactly one model was trained after the search", len(fits))
    _, salt, fx, fy = fits[0]
    chosen = [m for m in good if m[1] == salt]
    require(bool(chosen), "the model is not the best pipeline found", salt, [(m[0], m[1]) for m in made])
    pre = [f for f in FITS if f[0] == "RecScale"]
    require(len(pre) == chosen[0][2] and all(f[1] == 2 for f in pre), "the model's preprocessing is not that of the best pipeline", len(pre), chosen[0][2])
    require([float(v) for v in fx[:, 0]] == [i + 0.25 for i in keep], "the model was not trained on all labelled rows in their order", list(fx[:, 0]), keep)
    require([int(v) if isinstance(v, (np.integer, bool, np.bool_)) else v for v in fy] == want_y, "the model was trained on other labels", fy, want_y)
    require(not np.isnan(fx).any(), "the model was trained on missing values")
    last = gama.model.steps[-1][1]
    require(type(last) is learner and last.salt == salt and hasattr(last, "classes_" if clf else "fitted_"), "the model is not the trained pipeline")
    pred = gama.predict(x)
    require(len(pred) == case["n"] and len(FITS) == len(pre) + 1, "predicting trained again or lost rows")


# ------------------------------------------------------------------ after a real search

@st.composite
def search_cases(draw):
    return {"task": draw(st.sampled_from(["clf", "reg"])), "method": draw(st.sampled_from(["random", "ea"])), "evals": draw(st.integers(3, 12)),
            "n": draw(st.integers(20, 40)), "seed": draw(gen.seeds), "dseed": draw(st.integers(0, 200)), "length": draw(st.booleans()),
            "picks": draw(st.lists(st.integers(0, 3), min_size=1, max_size=6)), "two": draw(st.booleans())}


def check_search(case, ctx):
    clf = case["task"] == "clf"
    x, y = kit.numeric_xy(case["task"], case["n"], 4, case["dseed"])
    evaluations = []
    names = (SCORES if clf else REG_SCORES)[2 if case["two"] else 1]

    def stop(k):
        if k >= case["evals"]:
            raise KeyboardInterrupt

    seed_all(case["seed"])
    with kit.clean_gama(), kit.SyncEvaluator(case["picks"], on_wait=stop, n_workers=2):
        search = RandomSearch() if case["method"] == "random" else AsyncEA(population_size=4)
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring=names[0] if len(names) == 1 else tuple(names), search=search,
                          post_processing=BestFitPostProcessing(), regularize_length=case["length"], max_eval_time=60, max_total_time=600)
        g.evaluation_completed(evaluations.append)
        ok = True
        try:
            g.fit(x, y)
        except IndexError:
            ok = False
        done = [e for e in evaluations if e.error is None]
        if not ok:
            require(not done, "no model though pipelines were evaluated", len(done))
            return
    returned = [i for i in search.output if i.fitness.values[0] > float("-inf")]
    best = max(i.fitness.values for i in returned)
    pool = [i for i in returned if i.fitness.values == best]
    if case["method"] == "random" or case["evals"] <= 4:
        require(best == max(e.score for e in done), "the best evaluation is not among the result", best)
    match = [i for i in pool if steps_of(i.pipeline)[-len(i.primitives):] == steps_of(g.model)[-len(i.primitives):] and len(i.primitives) == len(g.model.steps) - n_fixed(g)]
    require(bool(match), "the model is not the best pipeline found", [str(i) for i in pool], g.model)
    fresh = clone(g.model).fit(g._basic_encoding_pipeline.transform(x), y)
    want = fresh.predict(g._basic_encoding_pipeline.transform(x))
    require(np.array_equal(np.asarray(want), np.asarray(g.predict(x))), "the model is not the pipeline trained on all data")
    ctx.nontrivial(len({e.score for e in done}) > 1)
    ctx.label(case["method"])


def n_fixed(g):
    return len(g._fixed_pipeline_extension)


def steps_of(pipeline):
    return [(type(s).__name__, sorted((k, repr(v)) for k, v in s.get_params(deep=False).items())) for _, s in pipeline.steps]


FACETS = [
    Facet("select", cases, check_select, quick=1200, thorough=30000,
          rule="generated search results (ties, several metrics, lengths, failures) and datasets through a real fit with recording components; non-trivial: the results differ in score"),
    Facet("search", search_cases, check_search, quick=120, thorough=3000,
          rule="real random and evolutionary searches with scikit-learn pipelines on small data; non-trivial: evaluations with different scores"),
]
