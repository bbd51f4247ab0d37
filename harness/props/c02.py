"""C02: data files load with the content, names, types and target they contain."""
import csv
import io
import math

import pandas as pd
from hypothesis import strategies as st

from gama.data_loading import X_y_from_file, file_to_pandas, load_feature_metadata_from_file
from harness import gen
from harness.core import Facet, require
from harness.gen import missing, same, nan

ASSUMPTIONS = [
    "column names are distinct; cells hold no line breaks",
    "delimiter and header detection is only judged where Python's csv.Sniffer, which the documentation names, gives the true answer",
]

TEXT = ["a", "b", "c", "yes", "no", "x y", "Z-1", "red", "green", "é", "long value", "it's", "A", "_", "b;c", "d|e", "n/q", "q,w"]
ODD = ["#3", "a#b", "trail ", "1,234", "50%", "100% of", "2020-01-01", "12:30", "$5", "{x}", "0x1F", "1-2", "+", "//", "@data", "a  b"]
ODD_CSV = ODD + [" lead", "C:\\dir\\n", 'say "hi"', '"', "'q'", "\\"]  # the ARFF library can not read these
NAMES = ["class", "a", "b", "col 1", "col 2", "Age", "age", "sepal.length", "x_1", "target", "Straße", "v1", "v2", "p,q", "1st", "data", "It's"]


def number_text(v):
    return repr(v) if isinstance(v, float) else str(v)


@st.composite
def columns(draw, n, arff):
    kind = draw(st.sampled_from(["float", "int", "smallint", "wholefloat", "endfloat", "text", "bool"]))
    if kind == "float":
        v = st.one_of(gen.nice_floats, gen.nice_floats, st.none())
    elif kind == "int":
        v = st.one_of(st.integers(-10**6, 10**6), st.integers(0, 30))
    elif kind == "smallint":
        v = st.integers(0, 3)
    elif kind in ("wholefloat", "endfloat"):
        v = st.one_of(st.integers(0, 12).map(float), st.none())
    elif kind == "bool":
        v = st.sampled_from(["yes", "no", None])
    else:
        pool = draw(st.lists(st.sampled_from(TEXT), min_size=1, max_size=5, unique=True))
        if draw(st.integers(0, 2)) == 0:
            pool = pool + draw(st.lists(st.sampled_from(ODD if arff else ODD_CSV), min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 3)) == 0:
            pool = pool + ["0", "1.5"]
        v = st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.none())
    values = draw(st.lists(v, min_size=n, max_size=n))
    if kind == "endfloat":
        values[-1] = draw(st.sampled_from([0.5, -2.25, 1e-7]))
    return {"kind": kind, "values": values}


@st.composite
def tables(draw, arff):
    n = draw(st.one_of(st.integers(1, 6), st.integers(2, 25)))
    k = draw(st.integers(2, 6))
    names = draw(st.permutations(NAMES))[:k]
    cols = [draw(columns(n, arff)) for _ in range(k)]
    return {"n": n, "names": names, "cols": cols, "repeat": draw(st.sampled_from([1] * 14 + [7, 7, 30, 30, 150])),
            "last": draw(st.integers(0, 3))}


def expand(case):
    """The same rows several times over, but for the last ones: files larger than what is read to detect their format,
    with values that occur only at their end."""
    r, n = case.get("repeat", 1), case["n"]
    if r == 1:
        return case
    body = max(1, n - case.get("last", 0))
    return {**case, "n": body * r + n - body, "cols": [{**c, "values": c["values"][:body] * r + c["values"][body:]} for c in case["cols"]]}


def is_number(text):
    try:
        float(text)
        return True
    except ValueError:
        return False


# ---------------------------------------------------------------------------------- csv

@st.composite
def csv_cases(draw):
    t = draw(tables(False))
    return {**t, "sep": draw(st.sampled_from([",", ";", "\t", "|"])), "header": draw(st.booleans()),
            "give": draw(st.sampled_from(["none", "sep", "header", "both", "both"])),
            "ext": draw(st.sampled_from([".csv", ".csv", ".csv", ".CSV"])),
            "newline": draw(st.sampled_from(["\n", "\n", "\r\n", "none"])),
            "split": draw(st.one_of(st.none(), st.integers(0, len(t["names"]) - 1), st.just("absent")))}


def write_csv(case):
    out = io.StringIO()
    w = csv.writer(out, delimiter=case["sep"], lineterminator="\r\n" if case["newline"] == "\r\n" else "\n")
    if case["header"]:
        w.writerow(case["names"])
    for i in range(case["n"]):
        w.writerow(["" if missing(c["values"][i]) else number_text(c["values"][i]) for c in case["cols"]])
    text = out.getvalue()
    return text[:-1] if case["newline"] == "none" else text


def expected_csv_column(col):
    """(values, is_category) as documented for files without type annotation."""
    present = [v for v in col["values"] if not missing(v)]
    texts = [number_text(v) for v in present]
    if any(not is_number(t) for t in texts):
        return [None if missing(v) else number_text(v) for v in col["values"]], True
    numbers = [nan if missing(v) else float(number_text(v)) for v in col["values"]]
    whole = [v for v in numbers if not math.isnan(v)]
    category = all(v == int(v) for v in whole) and len(set(whole)) <= 10
    return numbers, category


def check_frame(df, names, expected, row_count):
    require(isinstance(df, pd.DataFrame), "not a DataFrame", type(df))
    require(df.shape == (row_count, len(names)), "wrong shape", df.shape, (row_count, len(names)))
    require([str(c) for c in df.columns] == [str(n) for n in names], "wrong column names", list(df.columns), names)
    for i, (values, category) in enumerate(expected):
        series = df.iloc[:, i]
        got = list(series)
        require(all(same(a, b) for a, b in zip(got, values)), "wrong values", names[i], got, values)
        if category is not None:
            is_cat = isinstance(series.dtype, pd.CategoricalDtype)
            require(is_cat == category, "column wrongly (not) categorical", names[i], str(series.dtype), category)
            if not is_cat and not all(missing(v) for v in values) and not any(isinstance(v, str) for v in values):
                require(series.dtype.kind in "if", "numbers are not numeric", str(series.dtype))


def check_split(path, case, names, expected, kwargs):
    df = file_to_pandas(path, **dict(kwargs))
    check_frame(df, names, expected, case["n"])
    split = case["split"]
    if split == "absent":
        try:
            X_y_from_file(path, split_column="no such column", **dict(kwargs))
        except ValueError:
            return
        require(False, "a target column that is not in the file was accepted")
    if split is not None and not case.get("header", True):
        split = None
    at = len(names) - 1 if split is None else split
    x, y = X_y_from_file(path, split_column=None if split is None else names[at], **dict(kwargs))
    require(isinstance(y, pd.Series), "target is not a Series", type(y))
    check_frame(x, names[:at] + names[at + 1:], expected[:at] + expected[at + 1:], case["n"])
    check_frame(y.to_frame(), [names[at]], [expected[at]], case["n"])


def check_csv(case, ctx):
    case = expand(case)
    text = write_csv(case)
    path = "table" + case["ext"]
    with open(path, "w", encoding="utf-8", newline="") as fh:
        fh.write(text)
    sniffed = None
    first = open(path, "r").read(2**12)
    try:
        sniffed = (csv.Sniffer().sniff(first).delimiter, csv.Sniffer().has_header(first))
    except csv.Error:
        pass
    kwargs = {}
    if case["give"] in ("sep", "both"):
        kwargs["sep"] = case["sep"]
    if case["give"] in ("header", "both"):
        kwargs["header"] = 0 if case["header"] else None
    truth = (case["sep"], case["header"])
    names = list(case["names"]) if case["header"] else list(range(len(case["cols"])))
    expected = [expected_csv_column(c) for c in case["cols"]]
    seen = {"none": sniffed, "sep": sniffed and (case["sep"], sniffed[1]), "header": sniffed and (sniffed[0], case["header"]), "both": truth}[case["give"]]
    judged = seen == truth
    blank_row = any(all(missing(c["values"][i]) for c in case["cols"]) for i in range(case["n"]))
    ctx.label(f"give {case['give']}", "judged" if judged else "sniffer disagrees", case["ext"])
    if judged:
        check_split(path, case, names, expected, kwargs)
        if case["give"] != "both":
            ctx.label("detected")
    if sniffed == truth:
        meta = load_feature_metadata_from_file(path)
        require(list(meta) == [str(n) for n in names], "header summary names other columns than the file", list(meta), names)
        require(all(v == "" for v in meta.values()), "csv types are not inferred", meta)
        ctx.label("metadata")
    ctx.nontrivial(judged and case["n"] > 1 and not blank_row)


# ---------------------------------------------------------------------------------- arff

@st.composite
def arff_cases(draw):
    t = draw(tables(True))
    return {**t, "quote": draw(st.sampled_from(['"', "'"])), "upper": draw(st.booleans()),
            "comments": draw(st.booleans()), "encoding": draw(st.sampled_from([None, "utf-8", "latin-1"])),
            "numtype": draw(st.sampled_from(["REAL", "NUMERIC", "numeric", "real"])), "tabs": draw(st.sampled_from([" ", " ", "\t", "  "])),
            "asstring": draw(st.lists(st.booleans(), min_size=6, max_size=6)), "extra": draw(st.booleans()),
            "split": draw(st.one_of(st.none(), st.integers(0, len(t["names"]) - 1), st.just("absent"))),
            "ext": draw(st.sampled_from([".arff", ".arff", ".ARFF"])), "space": draw(st.sampled_from(["", "", " ", "\t"]))}


def arff_quote(text, q='"'):
    if all(ch.isalnum() or ch in "._-" for ch in text) and text:
        return text
    if q in text:
        q = '"' if q == "'" else "'"
    return f"{q}{text}{q}"


def write_arff(case):
    """(text, [declared type per column], expected)"""
    word = (lambda w: w.upper()) if case["upper"] else (lambda w: w)
    lines = []
    if case["comments"]:
        lines += ["% written by the check", ""]
    lines += [f"{word('@relation')} generated", ""]
    types, expected = [], []
    for i, (name, col) in enumerate(zip(case["names"], case["cols"])):
        if col["kind"] in ("text", "bool"):
            values = [None if missing(v) else number_text(v) for v in col["values"]]
            if case["asstring"][i]:
                types.append("STRING")
                expected.append((values, False))
            else:
                domain = sorted({v for v in values if v is not None} | ({"unused"} if case["extra"] else set())) or ["unused"]
                types.append("{" + ", ".join(arff_quote(v, case["quote"]) for v in domain) + "}")
                expected.append((values, True))
        else:
            types.append(case["numtype"])
            expected.append(([nan if missing(v) else float(v) for v in col["values"]], False))
        gap = case["tabs"]
        lines.append(f"{word("@attribute")} {arff_quote(name, case['quote'])}{gap}{types[-1]}")
        if case["comments"] and i == 0:
            lines.append("% a comment between attributes")
    lines += ["", word("@data") + case.get("space", "")]
    for r in range(case["n"]):
        cells = []
        for col in case["cols"]:
            v = col["values"][r]
            if missing(v):
                cells.append("?")
            elif col["kind"] in ("text", "bool"):
                cells.append(arff_quote(number_text(v), case["quote"]))
            else:
                cells.append(number_text(v))
        lines.append(",".join(cells))
    return "\n".join(lines) + "\n", types, expected


def check_arff(case, ctx):
    case = expand(case)
    text, types, expected = write_arff(case)
    path = "table" + case["ext"]
    encoding = case["encoding"]
    with open(path, "w", encoding=encoding or "utf-8") as fh:
        fh.write(text)
    kwargs = {"encoding": encoding} if encoding else {}
    check_split(path, case, list(case["names"]), expected, kwargs)
    try:
        text.encode(encoding or "utf-8").decode("utf-8")
        readable = True
    except UnicodeDecodeError:
        readable = False
    if readable:
        meta = load_feature_metadata_from_file(path)
        require(list(meta) == list(case["names"]), "header summary names other columns than the file", list(meta))
        got = [meta[n].strip() for n in case["names"]]
        require(got == types, "header summary gives other types than declared", got, types)
    ctx.label("quoted name" if any(not n.isalnum() for n in case["names"]) else "plain names", case["ext"], f"encoding {encoding}")
    ctx.nontrivial(case["n"] > 1 and len(set(c["kind"] for c in case["cols"])) > 1)


# ---------------------------------------------------------------------------------- other files

def other_cases():
    return st.fixed_dictionaries({"ext": st.sampled_from([".txt", ".xlsx", "", ".arff.gz", ".csv.bak", "csv", ".data", ".tsv"]),
                                  "stem": st.sampled_from(["table", "csv", "arff", "data.csv", "a.arff"])})


def check_other(case, ctx):
    path = case["stem"] + "_" + case["ext"] if case["ext"] == "csv" else case["stem"] + (case["ext"] or "_")
    with open(path, "w") as fh:
        fh.write("a,b\n1,2\n3,4\n")
    ctx.nontrivial()
    for fn in (file_to_pandas, X_y_from_file, load_feature_metadata_from_file):
        try:
            fn(path)
        except ValueError:
            continue
        require(False, "a file that is neither csv nor arff was accepted", fn.__name__, path)


FACETS = [
    Facet("csv", csv_cases, check_csv, quick=2400, thorough=60000,
          rule="random tables written by an independent csv writer, delimiter and header given or detected; non-trivial: judged and more than one row"),
    Facet("arff", arff_cases, check_arff, quick=2400, thorough=60000,
          rule="random tables written by an independent arff writer; non-trivial: more than one row and mixed column types"),
    Facet("other", other_cases, check_other, quick=40, thorough=200, rule="files with other extensions; all non-trivial"),
]
