"""C26: the command line does what its arguments say."""
import ast
import contextlib
import inspect
import io
import os
import pickle
import sys
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from gama import GamaClassifier, GamaRegressor
from gama.data_loading import X_y_from_file
from gama.gama import Gama
from gama.search_methods import AsyncEA
from gama.utilities import cli
from gama.utilities.generic.async_evaluator import AsyncEvaluator
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["the search itself is replaced by one that evaluates a single candidate (C13-C15 decide the searches)"]

CLF_METRICS = ["accuracy", "neg_log_loss", "f1_macro", "roc_auc"]
REG_METRICS = ["neg_mean_squared_error", "r2", "neg_mean_absolute_error"]
WORDS = ["Ab", "cd", "Ef g", "h", "Petal", "width"]


NUMBERS = ("num", "target number", "target many whole", "target two numbers")


@st.composite
def tables(draw, dry):
    n = draw(st.integers(12, 24))
    n_num, n_cat = draw(st.integers(1, 3)), draw(st.integers(0, 1))
    kinds = ["num"] * n_num + ["cat"] * n_cat + [draw(st.sampled_from(["target text", "target number", "target whole", "target two numbers"] + (["target many text", "target many whole"] if dry else [])))]
    kinds = draw(st.permutations(kinds))
    names = draw(st.permutations(["alpha", "Beta", "gamma", "DELTA", "eps", "zeta"]))[: len(kinds)]
    return {"n": n, "kinds": kinds, "names": names, "seed": draw(st.integers(0, 999))}


@st.composite
def cases(draw, dry=None):
    dry = draw(st.booleans()) if dry is None else dry
    table = draw(tables(dry))
    target_kind = next(k for k in table["kinds"] if k.startswith("target"))
    fmt = draw(st.sampled_from(["csv", "arff"]))
    ext = draw(st.sampled_from([fmt, fmt, fmt.upper(), fmt.capitalize()]))
    fault = draw(st.sampled_from([None] * 9 + ["no file", "extension", "mode", "target", "metric", "other case"])) if dry else None
    name_target = draw(st.booleans()) or not table["kinds"][-1].startswith("target")
    kind = target_kind if name_target else table["kinds"][-1]
    implied = "regression" if kind in NUMBERS else "classification"
    mode = draw(st.sampled_from([None, None, "classification", "regression"]))
    if not dry and mode == "regression" and implied == "classification":
        mode = None  # there is nothing to regress on
    if not dry and mode == "classification" and implied == "regression":
        mode = None  # every label would occur once
    task = mode or implied
    return {
        "table": table, "fmt": fmt, "file": draw(st.sampled_from(["data", "Data Set", "My.Data", "sub/Folder_x"])) + "." + ext,
        "sep": draw(st.sampled_from([",", ";", "\t", "|", " "])) if fmt == "csv" else ",", "give_sep": fmt == "csv" and draw(st.booleans()),
        "name_target": name_target, "mode": mode, "implied": implied,
        "metric": draw(st.sampled_from([None] + (CLF_METRICS if task == "classification" else REG_METRICS))),
        "t": draw(st.sampled_from([None, 1, 7, 60, 90])), "t_eval": draw(st.sampled_from([None, 1, 2, 30, 120])), "n_jobs": draw(st.sampled_from([None, 1, 3, 7])),
        "long": draw(st.booleans()), "outdir": draw(st.sampled_from([None, "logs", "Log Dir"])), "v": draw(st.booleans()), "dry": dry,
        "o": draw(st.sampled_from([None, "model.pkl", "Out Model.bin", "Made/model.pkl"])), "py": draw(st.sampled_from([None, None, "code.py", "Code.PY", "Made/x.py"])), "py_exists": draw(st.booleans()),
        "call": draw(st.sampled_from(["list", "text", "argv"])), "fault": fault, "seed": draw(gen.seeds), "order": draw(gen.seeds),
    }


def content(table):
    rng = np.random.RandomState(table["seed"])
    columns = []
    for kind in table["kinds"]:
        n = table["n"]
        if kind in ("num", "target number"):
            values = [f"{v:.3f}" for v in rng.normal(scale=3, size=n)]
        elif kind == "cat":
            values = [["red", "green", "Blue"][i] for i in rng.randint(0, 3, size=n)]
        elif kind == "target two numbers":
            values = [["0.5", "-1.25"][i % 2] for i in range(n)]
        elif kind == "target text":
            values = [["yes", "No"][i % 2] for i in range(n)]
        elif kind == "target many text":
            values = [f"label{i % 12}" for i in range(n)]
        elif kind == "target many whole":
            values = [str(3 * (i % 12)) for i in range(n)]
        else:
            values = [str(i % 2 + 1) for i in range(n)]
        columns.append(values)
    return columns


def write(case):
    table, path = case["table"], case["file"]
    columns = content(table)
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path))
    with open(path, "w") as fh:
        if case["fmt"] == "csv":
            fh.write(case["sep"].join(table["names"]) + "\n")
            for row in zip(*columns):
                fh.write(case["sep"].join(row) + "\n")
        else:
            fh.write("@RELATION test\n\n")
            for name, kind, values in zip(table["names"], table["kinds"], columns):
                dtype = "NUMERIC" if kind in NUMBERS else "{" + ",".join(sorted(set(values))) + "}"
                fh.write(f"@ATTRIBUTE {name} {dtype}\n")
            fh.write("\n@DATA\n")
            for row in zip(*columns):
                fh.write(",".join(row) + "\n")
    return columns


def command(case):
    """The arguments, in a generated order."""
    parts = []
    if case["give_sep"]:
        parts.append(["-sep", case["sep"]])
    if case["fault"] == "target":
        parts.append(["--target", "nothing"])
    elif case["name_target"]:
        i = next(i for i, k in enumerate(case["table"]["kinds"]) if k.startswith("target"))
        parts.append(["--target", case["table"]["names"][i]])
    mode = "clustering" if case["fault"] == "mode" else case["mode"]
    if mode is not None:
        parts.append(["--mode", mode])
    metric = "bogus" if case["fault"] == "metric" else case["metric"]
    for flag, value in (("-m", metric), ("-t", case["t"]), ("--time_pipeline", case["t_eval"]), ("-n", case["n_jobs"]), ("-outdir", case["outdir"]), ("-o", case["o"]), ("-py", case["py"])):
        if value is not None:
            parts.append([flag, str(value)])
    for flag, on in (("--long", case["long"]), ("-v", case["v"]), ("-dry", case["dry"])):
        if on:
            parts.append([flag])
    path = case["file"]
    if case["fault"] == "extension":
        path = "notes.txt"
    if case["fault"] == "other case":
        path = path.swapcase()
    parts.append([path])
    order = np.random.RandomState(case["order"]).permutation(len(parts))
    return [word for i in order for word in parts[i]]


def invoke(case):
    """Run the command; returns (what was printed, the error or None)."""
    words = command(case)
    out = io.StringIO()
    error = None
    with contextlib.redirect_stdout(out), mock.patch.object(sys, "argv", ["gama"] + words):
        try:
            if case["call"] == "argv":
                cli.main()
            elif case["call"] == "text" and not any(c.isspace() for word in words for c in word):
                cli.main(" ".join(words))
            else:
                cli.main(words)
        except (Exception, SystemExit) as e:
            error = e
    return out.getvalue(), error


@contextlib.contextmanager
def recorded(case):
    """Record which instances are made and fitted, and replace the search by a short one."""
    record = {"made": [], "fitted": [], "searched": [], "evaluated": []}
    base_init, clf_fit, base_fit = Gama.__init__, GamaClassifier.__dict__.get("fit"), Gama.fit
    signature = inspect.signature(base_init)

    def init(self, *args, **kwargs):
        bound = signature.bind(self, *args, **kwargs)
        bound.apply_defaults()
        record["made"].append((self, dict(bound.arguments)))
        return base_init(self, *args, **kwargs)

    def fit(original):
        def wrapper(self, *args, **kwargs):
            if not record["fitted"]:
                record["fitted"].append((self, inspect.signature(original).bind(self, *args, **kwargs).arguments))
            return original(self, *args, **kwargs)

        return wrapper

    def search(self, operations, start_candidates):
        record["searched"].append((operations, start_candidates))
        quick = ("GaussianNB", "BernoulliNB", "DecisionTreeClassifier", "DecisionTreeRegressor")
        candidates = [c for c in start_candidates] + [operations.individual() for _ in range(100)]
        candidates = [c for c in candidates if c.pipeline_str().split("(")[0] in quick] or candidates
        chosen = min(candidates, key=lambda c: len(c.primitives))
        with AsyncEvaluator() as evaluator:
            evaluator.submit(operations.evaluate, chosen)
            future = operations.wait_next(evaluator)
            record["evaluated"].append((future.result, evaluator))
        self.output = [future.result.individual]

    limits = []
    original_defaults = AsyncEA.dynamic_defaults

    def dynamic_defaults(self, x, y, time_limit):
        limits.append(time_limit)
        return original_defaults(self, x, y, time_limit)

    record["limits"] = limits
    patches = [mock.patch.object(Gama, "__init__", init), mock.patch.object(Gama, "fit", fit(base_fit)), mock.patch.object(AsyncEA, "search", search), mock.patch.object(AsyncEA, "dynamic_defaults", dynamic_defaults)]
    if clf_fit is not None:
        patches.append(mock.patch.object(GamaClassifier, "fit", fit(clf_fit)))
    with contextlib.ExitStack() as stack:
        for p in patches:
            stack.enter_context(p)
        yield record


def tree():
    out = {}
    for folder, dirs, files in os.walk("."):
        for name in dirs:
            out[os.path.join(folder, name)] = None
        for name in files:
            with open(os.path.join(folder, name), "rb") as fh:
                out[os.path.join(folder, name)] = fh.read()
    return out


def check_instance(case, g, arguments):
    task = case["mode"] or case["implied"]
    require(type(g) is (GamaClassifier if task == "classification" else GamaRegressor), "the wrong task is run", task, type(g).__name__)
    expected = {
        "max_total_time": 60 * (60 if case["t"] is None else case["t"]), "max_eval_time": 60 * (5 if case["t_eval"] is None else case["t_eval"]),
        "n_jobs": 1 if case["n_jobs"] is None else case["n_jobs"], "regularize_length": not case["long"],
        "scoring": case["metric"] or ("neg_log_loss" if task == "classification" else "neg_mean_squared_error"),
    }
    for name, value in expected.items():
        require(arguments[name] == value, f"{name} is not what was given", value, arguments[name])
    if case["outdir"] is not None:
        require(os.path.realpath(g.output_directory) == os.path.realpath(case["outdir"]), "another output directory is used", g.output_directory)


def check(case, ctx):
    with kit.clean_gama(), kit.SyncEvaluator(n_workers=None, roundtrip=False) as sync:
        seed_all(case["seed"])
        columns = write(case)
        os.mkdir("Made")
        if case["fault"] == "no file":
            os.remove(case["file"])
        if case["fault"] == "extension":
            open("notes.txt", "w").write("1,2\n3,4\n")
        if case["py"] and case["py_exists"]:
            open(case["py"], "w").write("old = 1\n")
        before = tree()
        with recorded(case) as record:
            printed, error = invoke(case)
        after = tree()
        kept = {k: v for k, v in before.items() if not (case["py"] and k == "./" + case["py"] and not case["dry"])}
        require(all(k in after and after[k] == v for k, v in kept.items()), "a file of the user was changed", sorted(kept), sorted(after))
        new = {k for k in after if k not in before}
        if case["fault"] is not None:
            kind = {"no file": FileNotFoundError, "other case": FileNotFoundError}.get(case["fault"], ValueError)
            require(isinstance(error, kind), f"no proper error ({case['fault']})", repr(error), printed[-300:])
            require(not record["fitted"], f"fitted anyway ({case['fault']})")
            require(not new, f"something is left behind after an error ({case['fault']})", sorted(new))
            ctx.nontrivial(True)
            ctx.label("fault: " + case["fault"])
            return
        if error is not None:
            raise error
        task = case["mode"] or case["implied"]
        require(len(record["made"]) == 1, "not one instance is made", len(record["made"]))
        g, arguments = record["made"][0]
        check_instance(case, g, arguments)
        require(("INIT" in printed) == case["v"], "status updates are printed only when asked for", case["v"], printed[-600:])
        if case["mode"] is None:
            require(task in printed and not {"classification": "regression", "regression": "classification"}[task] in printed.split("INIT")[0], "the detected task is not reported", task, printed[:400])
        ctx.label(task, "dry" if case["dry"] else "run", case["fmt"], case["call"])
        ctx.nontrivial(len(command(case)) > 3)
        if case["dry"]:
            require(not record["fitted"] and not sync.submitted, "a dry run fits")
            require(not new, "a dry run leaves something behind", sorted(new))
            return
        check_run(case, columns, g, record, sync, new, after, ctx)


def check_run(case, columns, g, record, sync, new, after, ctx):
    # the data
    require(len(record["fitted"]) == 1 and record["fitted"][0][0] is g, "the instance is not fitted")
    x, y = record["fitted"][0][1]["x"], record["fitted"][0][1]["y"]
    names = list(case["table"]["names"])
    i = next(i for i, k in enumerate(case["table"]["kinds"]) if k.startswith("target")) if case["name_target"] else len(names) - 1
    require(list(x.columns) == names[:i] + names[i + 1:], "other features are used than the file has", list(x.columns), names, i)
    for j, name in enumerate(names):
        values = list(y) if j == i else list(x[name])
        expected = columns[j]
        same = all(float(a) == float(b) for a, b in zip(values, expected)) if case["table"]["kinds"][j] in ("num", "target number", "target whole", "target two numbers") else [str(v) for v in values] == expected
        require(len(values) == len(expected) and same, "other data is used than the file has", name, values[:5], expected[:5])
    kwargs = {"sep": case["sep"]} if case["give_sep"] else {}
    x2, y2 = X_y_from_file(case["file"], split_column=names[i] if case["name_target"] else None, **kwargs)
    require(x.equals(x2) and y.equals(y2) and list(x.dtypes) == list(x2.dtypes) and y.dtype == y2.dtype, "the data is not that of the file", x.dtypes, x2.dtypes)
    # the settings, as the run shows them
    require(len(record["searched"]) == 1 and len(record["evaluated"]) == 1, "not one search")
    evaluation, evaluator = record["evaluated"][0]
    require(evaluator.n_workers == (1 if case["n_jobs"] is None else case["n_jobs"]), "another number of workers", case["n_jobs"], evaluator.n_workers)
    total = 60 * (60 if case["t"] is None else case["t"])
    require(0.8 * total <= record["limits"][0] <= total, "another time limit", total, record["limits"])
    require(len(evaluation.score) == (1 if case["long"] else 2), "length is an objective only when not asked otherwise", case["long"], evaluation.score)
    # the output
    outdir = case["outdir"] or os.path.relpath(g.output_directory)
    model_path = "./" + (case["o"] or "gama_model.pkl")
    allowed = {model_path, "./" + outdir}
    if case["py"]:
        allowed.add("./" + case["py"])
    rest = {p for p in new if p not in allowed and not p.startswith("./" + outdir + "/")}
    require(not rest, "files are written that were not asked for", sorted(rest))
    require(allowed <= set(after), "not everything asked for is written", sorted(allowed), sorted(new))
    logs = {os.path.basename(p) for p in new if p.startswith("./" + outdir + "/")}
    require({"gama.log", "evaluations.log"} <= logs and "cache" not in logs, "the output directory does not hold the logs", sorted(logs))
    with open(model_path, "rb") as fh:
        model = pickle.load(fh)
    expected = np.asarray(g.predict(x))
    g.model = model
    require(np.array_equal(np.asarray(g.predict(x)), expected), "the saved model is not the one found")
    if case["py"]:
        code = after["./" + case["py"]].decode()
        require(ast.dump(ast.parse(code)) == ast.dump(ast.parse(g.export_script(file=None))), "the exported code is not that of the model", code)
        ctx.label("code")


FACETS = [
    Facet("arguments", lambda: cases(dry=True), check, quick=500, thorough=12000,
          rule="dry runs and faulty command lines over generated files and arguments; non-trivial: more than three words, or an error is due"),
    Facet("runs", lambda: cases(dry=False), check, quick=140, thorough=4000,
          rule="complete runs with one evaluated candidate; non-trivial: more than three words on the command line"),
]
