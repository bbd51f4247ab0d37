"""C01: formatting keeps every labelled row paired with its own target."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from gama.data_formatting import format_x_y
from harness.core import Facet, require, seed_all
from harness import gen
from harness.gen import same, missing

ASSUMPTIONS = [
    "features and target have the same number of rows",
    "missing targets are None or NaN",
]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 24))
    k = draw(st.integers(1, 4))
    xkind = draw(st.sampled_from(["df", "df", "np_float", "np_int", "np_object"]))
    if xkind == "df":
        cols = [draw(gen.column(n, ("float", "int", "str", "category", "bool", "intlike"))) for _ in range(k)]
    elif xkind == "np_int":
        spread = draw(st.sampled_from([2, 9, 10, 11, 100]))
        cols = [
            {"kind": "int", "values": draw(st.lists(st.integers(0, spread), min_size=n, max_size=n))}
            for _ in range(k)
        ]
    elif xkind == "np_float":
        cols = [draw(gen.column(n, ("float", "intlike"))) for _ in range(k)]
        if draw(st.booleans()):  # a column with an exact number of distinct whole values
            d = min(n, draw(st.sampled_from([9, 10, 11, 12])))
            cols[0] = {"kind": "intlike", "values": [float(i % d) for i in range(n)]}
    else:
        cols = [draw(gen.column(n, ("float", "int", "str"))) for _ in range(k)]
    ykind = draw(
        st.sampled_from(
            ["np1", "np1", "np_col", "np_indicator", "series", "series", "series", "df1", "df_many"]
        )
    )
    if ykind == "np_indicator":
        width = draw(st.integers(2, 4))
        y = {"kind": "indicator", "values": draw(st.lists(st.integers(0, width - 1), min_size=n, max_size=n)), "width": width, "style": draw(st.sampled_from(["int", "bool", "float", "soft", "large", "negative"]))}
    else:
        kinds = ("float", "float", "int", "str", "str", "bool") if ykind.startswith("np") else (
            "float", "float", "int", "str", "category", "bool")
        y = draw(gen.column(n, kinds))
    for column in [y, *cols]:  # infinite is not missing
        if column["kind"] == "float" and draw(st.integers(0, 9)) == 0:
            column = column["values"]
            column[draw(st.integers(0, n - 1))] = draw(st.sampled_from([float("inf"), float("-inf")]))
    return {
        "x": cols,
        "xkind": xkind,
        "names": draw(st.sampled_from(["int", "str", "mixed"])),
        "xindex": draw(gen.index_strategy(n)),
        "y": y,
        "ykind": ykind,
        "yindex": draw(st.one_of(st.just("same"), gen.index_strategy(n))),
        "other": draw(gen.column(n, ("float", "str"))),
        "y_type": draw(st.sampled_from(["series", "series", "series", "frame"])),
        "remove": draw(st.sampled_from([True, True, True, False])),
    }


def build_x(case):
    cols, n = case["x"], len(case["x"][0]["values"])
    if case["xkind"] == "df":
        names = {
            "int": list(range(len(cols))),
            "str": [f"col {i}" for i in range(len(cols))],
            "mixed": [i if i % 2 else f"c{i}" for i in range(len(cols))],
        }[case["names"]]
        return gen.make_frame(cols, gen.make_index(case["xindex"], n), names)
    if case["xkind"] == "np_object":
        out = np.empty((n, len(cols)), dtype=object)
        for j, c in enumerate(cols):
            for i, v in enumerate(c["values"]):
                out[i, j] = v
        return out
    return np.array([c["values"] for c in cols], dtype=float if case["xkind"] == "np_float" else np.int64).T.copy()


def build_y(case):
    y, n = case["y"], len(case["y"]["values"])
    kind = case["ykind"]
    if kind == "np_indicator":
        style = y.get("style", "int")
        low, high = {"int": (0, 1), "bool": (0, 1), "float": (0.0, 1.0), "soft": (0.1, 0.6), "large": (1, 7), "negative": (-3.0, -0.5)}[style]
        out = np.full((n, y["width"]), low, dtype={"int": int, "bool": bool, "large": int}.get(style, float))
        if style == "soft":
            out[:, 0] = 0.25
        out[np.arange(n), y["values"]] = high
        return out
    if kind in ("np1", "np_col"):
        arr = gen.make_series(y).to_numpy()
        return arr.reshape(-1, 1).copy() if kind == "np_col" else arr.copy()
    index = gen.make_index(case["xindex"] if case["yindex"] == "same" else case["yindex"], n)
    series = gen.make_series(y, index=index, name="target")
    if kind == "series":
        return series
    if kind == "df1":
        return series.to_frame()
    return pd.concat([series, gen.make_series(case["other"], index=index, name="other")], axis=1) if index.is_unique else pd.DataFrame(
        {"target": series.array, "other": gen.make_series(case["other"]).array}, index=index)


def snapshot(o):
    return o.copy(deep=True) if isinstance(o, (pd.DataFrame, pd.Series)) else copy.deepcopy(o)


def unchanged(before, after):
    if isinstance(before, pd.DataFrame):
        return gen.frames_identical(before, after)
    if isinstance(before, pd.Series):
        return gen.frames_identical(before.to_frame("v"), after.to_frame("v"))
    return before.dtype == after.dtype and before.shape == after.shape and all(
        same(a, b) and type(a) is type(b) for a, b in zip(before.ravel().tolist(), after.ravel().tolist())
    )


def check(case, ctx):
    x, y = build_x(case), build_y(case)
    y_type = pd.Series if case["y_type"] == "series" else pd.DataFrame
    x0, y0 = snapshot(x), snapshot(y)
    fx, fy = format_x_y(x, y, y_type=y_type, remove_unlabeled=case["remove"])

    n = len(case["y"]["values"])
    target = case["y"]["values"]
    kept = [i for i in range(n) if not (case["remove"] and missing(target[i]))]
    dropped = n - len(kept)
    ctx.nontrivial(dropped > 0 and len(kept) > 0 or case["xkind"].startswith("np"))
    ctx.label(f"x:{case['xkind']}", f"y:{case['ykind']}", "drops rows" if dropped else "keeps all")
    if dropped and case["xkind"] == "df" and case["ykind"] in ("series", "df1", "df_many") and case["yindex"] != "same":
        ctx.label("drop with differing labels")

    require(isinstance(fx, pd.DataFrame), "features are not a DataFrame", type(fx))
    require(isinstance(fy, y_type), "target does not have the requested type", type(fy))
    require(len(fx) == len(fy), "features and target differ in length", len(fx), len(fy))
    require(len(fx) == len(kept), "wrong number of rows kept", len(fx), len(kept))
    require(fx.shape[1] == len(case["x"]), "number of columns changed", fx.shape)

    got_y = fy if y_type is pd.Series else fy.iloc[:, 0]
    require(got_y.ndim == 1, "target is not one-dimensional")
    got_y = list(got_y)
    for pos, i in enumerate(kept):
        require(same(got_y[pos], target[i]), "target value of a kept row changed", pos, i, got_y[pos], target[i])
    for j, col in enumerate(case["x"]):
        got = list(fx.iloc[:, j])
        for pos, i in enumerate(kept):
            require(same(got[pos], col["values"][i]), "feature value of a kept row changed", (pos, j), got[pos], col["values"][i])

    if isinstance(x0, pd.DataFrame):
        require(list(fx.columns) == list(x0.columns), "column names changed", list(fx.columns))
        require([str(t) for t in fx.dtypes] == [str(t) for t in x0.dtypes], "column types changed", fx.dtypes.tolist())
    else:
        for j, col in enumerate(case["x"]):
            values = [v for v in col["values"] if not missing(v)]
            is_cat = isinstance(fx.iloc[:, j].dtype, pd.CategoricalDtype)
            if any(isinstance(v, str) for v in values):
                require(is_cat, "text column of an array is not categorical", j, str(fx.dtypes.iloc[j]))
            elif case["xkind"] in ("np_float", "np_int"):
                expect = len(set(values)) <= 10 and all(float(v).is_integer() for v in values)
                ctx.label("inferred categorical" if expect else "inferred numeric")
                require(is_cat == expect, "wrong column type inferred", j, str(fx.dtypes.iloc[j]), values)
    require(unchanged(x0, x), "the caller's features were modified")
    require(unchanged(y0, y), "the caller's target was modified")


FACETS = [
    Facet(
        "format",
        cases,
        check,
        quick=6000,
        thorough=120000,
        rule="random tables (arrays and frames, any row labels) with any kind of target; non-trivial: "
        "some but not all rows are dropped, or array columns are re-typed",
    ),
]
