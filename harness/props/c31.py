"""C31: a search uses the whole search space, less what is too large to store for the data at hand."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.neighbors import NearestCentroid, RadiusNeighborsRegressor
from sklearn.preprocessing import MinMaxScaler, PolynomialFeatures, RobustScaler, StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing, NoPostProcessing
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["generated columns vary, so that encoding does not drop them", "300 random pipelines of a space with at most 9 components miss one of them with a probability below 1e-9"]

PREDICTORS = {"clf": [KNeighborsClassifier, GaussianNB, LogisticRegression, DecisionTreeClassifier, NearestCentroid],
              "reg": [KNeighborsRegressor, Ridge, DecisionTreeRegressor, RadiusNeighborsRegressor]}
STEPS = [PolynomialFeatures, StandardScaler, MinMaxScaler, RobustScaler]
POST = ["ensemble", "ensemble", "one model", "all models", "no models", "best", "none"]


class StoringOnly(EnsemblePostProcessing):
    """Models are stored for an ensemble, which is not built."""

    def post_process(self, *args, **kwargs):
        return None


class BestOnly(BestFitPostProcessing):
    def post_process(self, *args, **kwargs):
        return None


def post_processing(name):
    if name == "best":
        return BestOnly()
    if name == "none":
        return NoPostProcessing()
    return StoringOnly(**{"ensemble": {}, "one model": {"max_models": 1}, "all models": {"max_models": None}, "no models": {"max_models": 0}}[name])


@st.composite
def spaces(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    predictors = draw(st.lists(st.integers(0, len(PREDICTORS[task]) - 1), min_size=1, max_size=4, unique=True))
    steps = draw(st.lists(st.integers(0, 3), max_size=4, unique=True))
    if draw(st.integers(0, 3)):
        predictors = sorted({0, *predictors})
        steps = sorted({0, *steps})
    return {"task": task, "predictors": predictors, "steps": steps}


@st.composite
def wide_data(draw):
    """Numbers and categories, encoded as about 50 columns."""
    levels = draw(st.lists(st.integers(2, 14), max_size=6))
    target = draw(st.sampled_from([3, 20, 47, 49, 50, 50, 51, 51, 52, 60, 101]))
    return {"levels": levels, "numbers": max(0 if levels else 1, target - sum(encoded(n) for n in levels)), "rows": draw(st.sampled_from([14, 28, 30])),
            "missing": draw(st.booleans()), "shuffle": draw(gen.seeds)}


@st.composite
def wide_cases(draw):
    return {"space": draw(spaces()), "post": draw(st.sampled_from(POST)), "data": draw(st.lists(wide_data(), min_size=1, max_size=3)), "seed": draw(gen.seeds)}


def encoded(levels):
    return levels if 3 <= levels <= 10 else 1


@st.composite
def large_cases(draw):
    cells = []
    for _ in range(draw(st.integers(1, 2))):
        columns = draw(st.sampled_from([10, 24, 40, 50, 50, 51, 60, 75]))
        if draw(st.integers(0, 4)) == 0:
            cells.append([columns, 1000])
        else:
            cells.append([columns, 6_000_000 // columns + draw(st.sampled_from([-1, 0, 0, 1, 1, 1000]))])
    space = draw(spaces())
    space["predictors"] = sorted({0, *space["predictors"]})
    return {"space": space, "post": draw(st.sampled_from(POST[:4] if draw(st.integers(0, 3)) else POST)), "large": cells, "seed": draw(gen.seeds)}


def make_data(spec, task):
    rng = np.random.RandomState(spec["shuffle"] % 2**32)
    rows = spec["rows"]
    columns = {}
    for i, n in enumerate(spec["levels"]):
        columns[f"c{i}"] = pd.Categorical([f"v{(r + i) % n}" for r in range(rows)])
    for i in range(spec["numbers"]):
        column = rng.normal(size=rows)
        if spec["missing"] and i % 3 == 0:
            column[i % rows] = np.nan
        columns[f"n{i}"] = column
    names = list(columns)
    rng.shuffle(names)
    return pd.DataFrame({name: columns[name] for name in names}), target(rows, task), sum(encoded(n) for n in spec["levels"]) + spec["numbers"]


def target(rows, task):
    return pd.Series(np.arange(rows) % 2 if task == "clf" else np.sin(np.arange(rows)), name="y")


def make_large(columns, rows, task):
    base = np.sin(np.arange(rows, dtype=float))
    return pd.DataFrame(np.broadcast_to(base[:, None], (rows, columns)).copy(), columns=[f"n{i}" for i in range(columns)]), target(rows, task), columns


def check(case, ctx):
    seed_all(case["seed"])
    space, task = case["space"], case["space"]["task"]
    predictors = [PREDICTORS[task][i] for i in space["predictors"]]
    steps = [STEPS[i] for i in space["steps"]]
    seen = []

    def program(operations, start):
        made = [operations.individual() for _ in range(200)] + list(start)
        if len(predictors) > 2 or steps:  # otherwise there may be only one pipeline
            made += [operations.mutate(made[i]) for i in range(60)]
        pairs = ((made[i], made[i + 1]) for i in range(60))
        made += [operations.mate(*pair) for pair in pairs if len(pair[0].primitives) > 1 and len(pair[1].primitives) > 1]
        seen.append(made)
        return []

    storing = case["post"] not in ("best", "none", "no models")
    datasets = [("wide", spec) for spec in case.get("data", [])] + [("large", spec) for spec in case.get("large", [])]
    left_out = 0
    with kit.clean_gama(), kit.SyncEvaluator():
        g = kit.make_gama(task, search=kit.ProbeSearch(program), post_processing=post_processing(case["post"]), search_space={c: {} for c in predictors + steps},
                          scoring="accuracy" if task == "clf" else "r2", max_total_time=600, max_eval_time=60, regularize_length=False)
        for kind, spec in datasets:
            x, y, width = make_data(spec, task) if kind == "wide" else make_large(*spec, task)
            g.fit(x, y, warm_start=None)
            cells = len(x) * width
            expected = {"prediction": set(predictors), "steps": set(steps)}
            if storing and cells > 6_000_000 and len(predictors) > 1:
                expected["prediction"] -= {KNeighborsClassifier, KNeighborsRegressor}
            if storing and width > 50 and len(steps) > 1:
                expected["steps"] -= {PolynomialFeatures}
            left_out += len(predictors) + len(steps) - sum(map(len, expected.values()))
            made = seen.pop()
            found = {"prediction": {i.primitives[0]._primitive.identifier for i in made}, "steps": {p._primitive.identifier for i in made for p in i.primitives[1:]}}
            require(found == expected, "the search does not use the components it should for this data", case["post"], (len(x), width), sorted(c.__name__ for s in found.values() for c in s), sorted(c.__name__ for s in expected.values() for c in s))
    ctx.nontrivial(left_out > 0 or len(datasets) > 1)
    ctx.label("left out" if left_out else "all used", "stored" if storing else "not stored", f"{len(datasets)} fits")


FACETS = [
    Facet("wide", wide_cases, check, quick=240, thorough=5000,
          rule="search spaces with and without KNN and PolynomialFeatures, post-processing that stores models or not, and sequences of data encoded as about 50 columns; non-trivial: something is left out, or several fits"),
    Facet("large", large_cases, check, quick=32, thorough=400,
          rule="the same with data of about 6,000,000 cells, just below, at and above the limit; non-trivial: something is left out, or several fits"),
]
