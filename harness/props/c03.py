"""C03: encoding is numeric, row-wise and the same at prediction as in training."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.pipeline import Pipeline

from gama.utilities.preprocessing import basic_encoding, basic_pipeline_extension
from harness import gen, kit
from harness.core import Facet, require, seed_all
from harness.gen import missing, nan

ASSUMPTIONS = [
    "columns are numeric, boolean-free, or categorical (what loading and array conversion produce), with distinct names",
    "a column that is (nearly) constant in training carries no information and may be left out; at least one column is left",
]

CATS = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"]


@st.composite
def column(draw, n, m):
    """A column of n training and m new rows. kind num: floats; cat: k categories of text or numbers."""
    kind = draw(st.sampled_from(["num", "cat", "cat"]))
    if kind == "num":
        v = st.one_of(gen.nice_floats, gen.nice_floats, gen.nice_floats, st.just(nan))
        return {"kind": kind, "train": draw(st.lists(v, min_size=n, max_size=n)), "new": draw(st.lists(v, min_size=m, max_size=m))}
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 9, 10, 10, 11, 11, 12] if n >= 11 else [1, 2, 2, 3, 3, 4, 9]))
    pool = CATS[:k] if draw(st.booleans()) else [float(i) for i in range(k)]
    miss = st.none() if draw(st.booleans()) else st.sampled_from(pool)
    v = st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool), miss)
    train = draw(st.lists(v, min_size=n, max_size=n))
    if draw(st.integers(0, 3)):  # make sure all categories occur, as far as rows allow
        order = draw(st.permutations(pool))
        for i, c in enumerate(order[:n]):
            train[i] = c
    other = "unseen" if isinstance(pool[0], str) else 77.0
    new = draw(st.lists(st.one_of(v, v, v, st.just(other)), min_size=m, max_size=m))
    return {"kind": kind, "train": train, "new": new, "text": isinstance(pool[0], str),
            "unused": draw(st.sampled_from([0, 0, 0, 1, 2, 9]))}


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(8, 30), st.integers(12, 20)))
    m = draw(st.integers(1, 6))
    k = draw(st.integers(1, 4))
    cols = [draw(column(n, m)) for _ in range(k)]
    return {"n": n, "m": m, "cols": cols, "clf": draw(st.booleans()), "names": draw(st.sampled_from(["int", "str", "mixed"])),
            "index": draw(gen.index_strategy(n)), "newcat": draw(st.sampled_from(["same", "own"])), "perm": draw(st.permutations(range(m))),
            "pad": draw(st.sampled_from([0] * 12 + [130, 600, 1100]))}


def expand(case):
    """Long tables: the first row many times before the others."""
    pad = case.get("pad", 0)
    if not pad:
        return case
    cols = [dict(c, train=[c["train"][0]] * pad + list(c["train"])) for c in case["cols"]]
    out = dict(case, cols=cols, n=case["n"] + pad, index="default" if case["index"] == "default" else list(range(pad)) + list(case["index"]), pad=0)
    if "y" in case:
        out["y"] = [case["y"][0]] * pad + list(case["y"])
        out["fit_rows"] = case["fit_rows"] + pad
    return out


def names_of(case):
    k = len(case["cols"])
    if case["names"] == "int":
        return list(range(k))
    if case["names"] == "str":
        return [f"col{i}" for i in range(k)]
    return [f"my column {i}" if i % 2 else f"c_{i}" for i in range(k)]


def categorical(c):
    """The training values; further categories may be declared that do not occur (e.g., rows were selected)."""
    out = pd.Categorical(c["train"])
    return out.add_categories([f"unused{i}" if c["text"] else 500.0 + i for i in range(c.get("unused", 0))])


def train_frame(case):
    index = gen.make_index(case["index"], case["n"])
    data = {}
    for name, c in zip(names_of(case), case["cols"]):
        if c["kind"] == "num":
            data[name] = pd.Series(np.array(c["train"], dtype=float), index=index)
        else:
            data[name] = pd.Series(categorical(c), index=index)
    return pd.DataFrame(data, index=index)


def new_frame(case, train, rows=None):
    rows = list(range(case["m"])) if rows is None else rows
    data = {}
    for name, c in zip(names_of(case), case["cols"]):
        values = [c["new"][i] for i in rows]
        if c["kind"] == "num":
            data[name] = pd.Series(np.array(values, dtype=float), index=[100 + i for i in rows])
        elif case["newcat"] == "same":
            data[name] = pd.Series(pd.Categorical(values, categories=train[name].cat.categories), index=[100 + i for i in rows])
        else:
            data[name] = pd.Series(pd.Categorical(values), index=[100 + i for i in rows])
    return pd.DataFrame(data)


def equal_frames(a, b):
    if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
        return False
    return all(gen.same(x, y) for c in range(a.shape[1]) for x, y in zip(a.iloc[:, c], b.iloc[:, c]))


def columns_of(encoded, name, names):
    """Positions of encoded columns that stem from column `name`."""
    out = []
    for i, c in enumerate(encoded.columns):
        if c == name or c == str(name):
            out.append(i)
        elif isinstance(c, str) and c not in names and c.rsplit("_", 1)[0] == str(name):
            out.append(i)
    return out


def check(case, ctx):
    case = expand(case)
    x = train_frame(case)
    before = x.copy(deep=True)
    enc, transformer = basic_encoding(x, case["clf"])
    require(gen.frames_identical(x, before), "encoding changed the data it was given")
    require(isinstance(enc, pd.DataFrame), "encoded data is no frame", type(enc))
    require(len(enc) == case["n"] and list(enc.index) == list(x.index), "rows or their labels changed", list(enc.index))
    again = transformer.transform(x)
    require(all(isinstance(c, str) for c in enc.columns) or not any(isinstance(c, str) for c in enc.columns),
            "the encoded columns have a mix of names no learner accepts", list(enc.columns))
    require(equal_frames(again, enc), "training rows are encoded differently after training", enc, again)

    names = names_of(case)
    new = new_frame(case, x)
    enc_new = transformer.transform(new)
    require(len(enc_new) == case["m"] and list(enc_new.index) == list(new.index), "rows or their labels changed for new data")
    require(list(enc_new.columns) == list(enc.columns), "new data is encoded to other columns", list(enc.columns), list(enc_new.columns))

    explained = set()
    for name, col in zip(names, case["cols"]):
        at = columns_of(enc, name, names)
        explained |= set(at)
        if col["kind"] == "num":
            present = [v for v in col["train"] if not missing(v)]
            constant = len(present) > 0 and np.var(present) < 1e-3
            require(len(at) == 1 or (constant and len(at) == 0), "a numeric column was lost or multiplied", name, list(enc.columns))
            if at:
                require(all(gen.same(a, b) for a, b in zip(enc.iloc[:, at[0]], col["train"])), "a numeric column was changed", name)
                require(all(gen.same(a, b) for a, b in zip(enc_new.iloc[:, at[0]], col["new"])), "a numeric column of new data was changed", name)
            continue
        distinct = sorted({v for v in col["train"] if not missing(v)}, key=str)
        k = len(distinct)
        if k > 10 and not case["clf"]:
            require(len(at) == 1 and all(gen.same(a, b) for a, b in zip(enc.iloc[:, at[0]], col["train"])),
                    "a feature left for target encoding was changed", name)
            ctx.label("target-encoded feature")
            continue
        block, block_new = enc.iloc[:, at], enc_new.iloc[:, at]
        for b in (block, block_new):
            require(all(t.kind in "iufb" for t in b.dtypes), "a categorical feature did not become numeric", name, str(list(b.dtypes)))
            require(not b.isnull().any().any(), "encoding left or made missing values in a categorical feature", name)
        if 3 <= k <= 10:
            ctx.label("one-hot feature")
            # a missing category in training may have an indicator of its own
            require(k <= len(at) <= k + any(missing(v) for v in col["train"]), "not one indicator column per category", name, k, len(at))
            require(all(v in (0, 1) for v in block.to_numpy().ravel()), "indicators are not zero or one", name)
            require(all(s == 1 for s, v in zip(block.sum(axis=1), col["train"]) if not missing(v)), "not exactly one indicator set", name)
        else:
            ctx.label("ordinal feature")
            values = {v if not missing(v) else None for v in col["train"]}
            require(len(at) == 1 or (len(at) == 0 and len(values) <= 1), "not one column for the feature", name, len(at))
        # different categories stay different, equal ones equal, in training and for new rows
        seen = {}
        if len(at):
            pairs = list(zip(col["train"], map(tuple, block.to_numpy()))) + list(zip(col["new"], map(tuple, block_new.to_numpy())))
            for v, code in pairs:
                if missing(v) or v not in distinct:
                    continue
                require(seen.setdefault(v, code) == code, "one category has two encodings", name, v)
            codes = [c for c in seen.values()]
            require(len(set(codes)) == len(codes), "two categories share an encoding", name, seen)
            for v, code in zip(col["new"], map(tuple, block_new.to_numpy())):
                if not missing(v) and v not in distinct:
                    ctx.label("unseen category")
                    if k >= 2:
                        require(code not in set(codes), "an unseen category is encoded as a seen one", name, v, code)
    require(explained == set(range(enc.shape[1])), "an encoded column stems from no feature", list(enc.columns))

    # row-wise: one at a time, and in another order
    for i in range(case["m"]):
        one = transformer.transform(new.iloc[[i]])
        require(equal_frames(one, enc_new.iloc[[i]]), "the encoding of a row depends on the other rows", i, one, enc_new.iloc[[i]])
    shuffled = transformer.transform(new.iloc[list(case["perm"])])
    require(equal_frames(shuffled, enc_new.iloc[list(case["perm"])]), "the encoding depends on the order of rows")
    built = new_frame(case, x, rows=[0])
    require(equal_frames(transformer.transform(built), enc_new.iloc[[0]]), "a row built on its own is encoded differently")
    ctx.label(*(["long table"] if case["n"] > 100 else []))
    ctx.nontrivial(case["n"] > 1 and any(c["kind"] == "cat" for c in case["cols"]))


# ------------------------------------------------------------------ what the pipeline's first step sees

class Seen(BaseEstimator):
    def fit(self, X, y=None):
        self.fitted_ = np.array(X)
        return self

    def predict(self, X):
        self.predicted_ = np.array(X)
        return np.zeros(len(X))


@st.composite
def ext_cases(draw):
    case = draw(cases())
    case["y"] = draw(st.lists(st.integers(-3, 3).map(float), min_size=case["n"], max_size=case["n"]))
    case["fit_rows"] = draw(st.integers(1, case["n"]))
    return case


def check_extension(case, ctx):
    case = expand(case)
    x = train_frame({**case, "index": "default"})
    enc, transformer = basic_encoding(x, case["clf"])
    if enc.shape[1] == 0:
        ctx.label("no information in any feature")
        return
    steps = basic_pipeline_extension(enc, case["clf"])
    part = enc.iloc[: case["fit_rows"]]
    y = pd.Series(case["y"][: case["fit_rows"]])
    pipeline = Pipeline(list(steps) + [("seen", Seen())])
    pipeline.fit(part, y)
    new = transformer.transform(new_frame(case, x))
    pipeline.predict(new)
    fitted, predicted = pipeline.named_steps["seen"].fitted_, pipeline.named_steps["seen"].predicted_
    for a in (fitted, predicted):
        require(a.dtype.kind in "iuf", "the first step sees data that is not numeric", a.dtype)
        require(not np.isnan(a.astype(float)).any(), "the first step sees missing values")
    require(fitted.shape[0] == len(part) and predicted.shape[0] == case["m"], "rows were lost")
    # numeric features: missing values are replaced by the median of the training part
    names, at = names_of(case), 0
    for position, name in enumerate(enc.columns):
        series = part.iloc[:, position]
        if isinstance(series.dtype, pd.CategoricalDtype):
            ctx.label("target-encoded feature")
            at += 1
            continue
        values = series.astype(float)
        if values.isnull().all():
            continue  # nothing to take a median of: left out
        median = float(np.median(values.dropna()))
        want = [median if np.isnan(v) else v for v in values]
        want_new = [median if np.isnan(v) else v for v in new.iloc[:, position].astype(float)]
        require(np.allclose(fitted[:, at], want, rtol=1e-12, atol=1e-12), "training values are not imputed with the median of the training part", name)
        require(np.allclose(predicted[:, at], want_new, rtol=1e-12, atol=1e-12), "new values are not imputed with the median of the training part", name)
        if values.isnull().any() or new.iloc[:, position].isnull().any():
            ctx.label("imputed")
            ctx.nontrivial()
        at += 1
    require(at == fitted.shape[1], "columns were lost or added before the first step", at, fitted.shape)


# ------------------------------------------------------------------ through fit and predict

@st.composite
def e2e_cases(draw):
    case = draw(cases().filter(lambda c: c["n"] >= 4))
    case["container"] = draw(st.sampled_from(["frame", "frame", "array"]))
    case["seed"] = draw(gen.seeds)
    return case


class SeenClassifier(Seen, ClassifierMixin):
    def fit(self, X, y):
        self.classes_ = np.unique(y)
        return super().fit(X, y)

    def predict(self, X):
        super().predict(X)
        return np.repeat(self.classes_[0], len(X))


class SeenRegressor(Seen, RegressorMixin):
    pass


def check_e2e(case, ctx):
    case = expand(case)
    from gama.genetic_programming.components import Fitness
    from gama.postprocessing import BestFitPostProcessing

    from gama.data_formatting import numpy_to_dataframe

    x = train_frame(case)
    new = new_frame(case, x)
    if case["container"] == "array":
        # tables with text are arrays of objects, all-numeric tables arrays of floats
        x, new = np.array(x), np.array(new)
    if basic_encoding(numpy_to_dataframe(x) if case["container"] == "array" else x, case["clf"])[0].shape[1] == 0:
        ctx.label("no information in any feature")
        return
    y = np.array([i % 2 for i in range(case["n"])]) if case["clf"] else np.arange(float(case["n"]))
    cls = SeenClassifier if case["clf"] else SeenRegressor

    def program(operations, start):
        ind = operations.individual()
        ind.fitness = Fitness((0.0, -1), None, 0, 0)
        return [ind]

    seed_all(case["seed"])
    with kit.clean_gama():
        g = kit.make_gama("clf" if case["clf"] else "reg", search_space={cls: {}}, scoring="accuracy" if case["clf"] else "r2",
                          search=kit.ProbeSearch(program), post_processing=BestFitPostProcessing())
        g.fit(x, y)
        seen = g.model.steps[-1][1]
        fitted = seen.fitted_
        g.predict(x)
        require(np.array_equal(seen.predicted_.astype(float), fitted.astype(float)), "training rows reach the model differently at prediction than in training",
                fitted, seen.predicted_)
        n_pred = len(g.predict(new))
        require(n_pred == case["m"], "not one prediction per row")
        together = seen.predicted_
        for i in range(case["m"]):
            g.predict(new[[i]] if case["container"] == "array" else new.iloc[[i]])
            require(np.array_equal(seen.predicted_[0].astype(float), together[i].astype(float)), "what the model sees of a row depends on the other rows", i)
    ctx.label(case["container"])
    ctx.nontrivial(any(c["kind"] == "cat" for c in case["cols"]))


FACETS = [
    Facet("encode", cases, check, quick=900, thorough=20000,
          rule="random tables with numeric and categorical columns of 1 to 12 categories, and new rows with unseen and missing "
          "categories; non-trivial: more than one row and a categorical column"),
    Facet("impute", ext_cases, check_extension, quick=500, thorough=12000,
          rule="as above, through target encoding and imputation fitted on a part of the rows; non-trivial: something was imputed"),
    Facet("predict", e2e_cases, check_e2e, quick=240, thorough=6000,
          rule="as above, through fit and predict with a recording learner, arrays and frames; non-trivial: a categorical column"),
]
