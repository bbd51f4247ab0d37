"""Generators shared by the property modules. Every case they make is plain data."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

nan = math.nan

small_int = st.integers(-3, 3)
seeds = st.integers(0, 2**31 - 1)
# Text that is unremarkable for csv/arff but includes spaces, case, digits and unicode.
odd_words = st.sampled_from(["", " ", "?", "nan", "None", "NA", "null", "-1"])  # values like any other
words = st.sampled_from(["a", "b", "c", "A", "yes", "no", "x y", "0", "1", "3.5", "é", "data", "nan?", "Z-1", "_"])
nice_floats = st.one_of(
    st.integers(-5, 5).map(float),
    st.floats(-100, 100, allow_nan=False).map(lambda f: round(f, 3) + 0.0),
    st.sampled_from([0.5, -0.5, 0.1, 1e-9, 1e9, -1e6]),
)


def missing(value):
    """Is the plain value a missing one (None or nan)?"""
    return value is None or (isinstance(value, float) and math.isnan(value))


def same(a, b):
    """Equality of two cells, missing equals missing."""
    a_missing = a is None or a is pd.NA or a is pd.NaT or (isinstance(a, (float, np.floating)) and math.isnan(a))
    b_missing = b is None or b is pd.NA or b is pd.NaT or (isinstance(b, (float, np.floating)) and math.isnan(b))
    if a_missing or b_missing:
        return a_missing and b_missing
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return bool(a == b)


def column(n, kinds=("float", "int", "str", "category", "bool")):
    """A column of n rows: {'kind': ..., 'values': [...]}; values may be missing where the dtype allows."""

    def of(kind):
        if kind == "float":
            v = st.one_of(nice_floats, nice_floats, nice_floats, st.just(nan))
        elif kind == "intlike":  # whole numbers as floats
            v = st.one_of(st.integers(0, 3).map(float), st.just(nan))
        elif kind == "int":
            v = st.integers(-20, 20)
        elif kind == "bool":
            v = st.booleans()
        else:
            v = st.one_of(words, words, words, odd_words, st.none())
        return st.lists(v, min_size=n, max_size=n).map(lambda vs: {"kind": kind, "values": vs})

    return st.sampled_from(list(kinds)).flatmap(of)


def make_series(col, index=None, name=None):
    kind, values = col["kind"], col["values"]
    if kind in ("float", "intlike"):
        return pd.Series(np.array([nan if v is None else v for v in values], dtype=float), index=index, name=name)
    if kind == "int":
        return pd.Series(np.array(values, dtype=np.int64), index=index, name=name)
    if kind == "bool":
        return pd.Series(np.array(values, dtype=bool), index=index, name=name)
    if kind == "category":
        return pd.Series(pd.Categorical(values), index=index, name=name)
    return pd.Series(np.array(values, dtype=object), index=index, name=name)


def index_strategy(n):
    """Row labels: default, shifted, shuffled, text, repeated, descending."""
    return st.one_of(
        st.just("default"),
        st.integers(1, 1000).map(lambda k: list(range(k, k + n))),
        st.permutations(list(range(n))).map(list),
        st.just([f"r{i}" for i in range(n)]),
        st.lists(st.integers(0, 2), min_size=n, max_size=n),
        st.just(list(range(n - 1, -1, -1))),
    )


def make_index(spec, n):
    return pd.RangeIndex(n) if spec == "default" else pd.Index(spec)


def make_frame(cols, index=None, names=None):
    names = list(range(len(cols))) if names is None else names
    series = [make_series(c, index=index) for c in cols]
    df = pd.concat(series, axis=1) if series else pd.DataFrame(index=index)
    df.columns = names
    return df


def frames_identical(a, b):
    """Same shape, labels, dtypes and cells."""
    if a.shape != b.shape or list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
        return False
    if [str(t) for t in a.dtypes] != [str(t) for t in b.dtypes]:
        return False
    return all(same(x, y) for i in range(a.shape[1]) for x, y in zip(list(a.iloc[:, i]), list(b.iloc[:, i])))
