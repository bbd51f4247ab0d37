"""C27: settings follow the documented precedence and bad ones are refused."""
import contextlib
import io
import logging
import multiprocessing
import os
import warnings
from unittest import mock

from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression, Perceptron, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.preprocessing import MinMaxScaler, StandardScaler

from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing, NoPostProcessing
from gama.postprocessing.base_post_processing import BasePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from gama.search_methods.base_search import BaseSearch
from gama.utilities.generic.async_evaluator import AsyncEvaluator
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = []


# ------------------------------------------------------------------------------------- precedence

values = st.one_of(st.integers(-3, 5), st.sampled_from([0, 0.0, False, True, "", "text", 0.5]))


@st.composite
def precedence_cases(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "size", "rate", "mode"]), min_size=1, max_size=4, unique=True))
    return {"kind": draw(st.sampled_from(["search", "post"])), "static": {n: draw(st.one_of(st.none(), values)) for n in names}, "given": {n: draw(st.one_of(st.none(), values)) for n in names},
            "derived": draw(st.lists(st.tuples(st.sampled_from(names), st.one_of(st.none(), values)).map(list), max_size=5))}


def described(text):
    """The settings named in a description such as Name(a=1,b=2)."""
    require(text.endswith(")") and "(" in text, "a description that is not Name(settings)", text)
    name, inner = text[:-1].split("(", 1)
    return name, dict(part.split("=", 1) for part in inner.split(",")) if inner else {}


def check_precedence(case, ctx):
    if case["kind"] == "search":
        class Method(BaseSearch):
            pass
        method = Method()
    else:
        class Method(BasePostProcessing):
            pass
        method = Method(0.2)
    method._hyperparameters = {n: (case["given"][n], case["static"][n]) for n in case["static"]}
    default = dict(case["static"])

    def verify():
        expected = {n: default[n] if case["given"][n] is None else case["given"][n] for n in default}
        got = method.hyperparameters
        require(got == expected and [type(got[n]) for n in got] == [type(expected[n]) for n in got], "a setting is not the one given, else derived, else default", got, expected)
        name, named = described(str(method))
        require(name == "Method" and named == {n: str(v) for n, v in case["given"].items() if v is not None}, "the description does not name exactly what was given", str(method), case["given"])

    verify()
    for name, value in case["derived"]:
        method._overwrite_hyperparameter_default(name, value)
        default[name] = value
        verify()
    ctx.nontrivial(bool(case["derived"]) and any(v is not None for v in case["given"].values()))
    if any(case["given"][n] is not None for n, _ in case["derived"]):
        ctx.label("given wins over derived")
    if any(v is not None and not v for v in case["given"].values()):
        ctx.label("given value is false or zero")


# ------------------------------------------------------------------------------------- shipped methods


def maybe(strategy):
    return st.one_of(st.none(), strategy)


@st.composite
def shipped_cases(draw):
    which = draw(st.sampled_from(["AsyncEA", "ASHA", "Ensemble", "RandomSearch"]))
    given = {
        "AsyncEA": lambda: {"population_size": draw(maybe(st.integers(3, 80))), "max_n_evaluations": draw(maybe(st.integers(0, 9)))},
        "ASHA": lambda: draw(st.sampled_from([
            {"reduction_factor": 2, "minimum_resource": 0.25, "maximum_resource": None, "minimum_early_stopping_rate": 0},
            {"reduction_factor": None, "minimum_resource": 20, "maximum_resource": 500, "minimum_early_stopping_rate": None},
            {"reduction_factor": 4, "minimum_resource": 3, "maximum_resource": 20, "minimum_early_stopping_rate": 1},
            {"reduction_factor": None, "minimum_resource": None, "maximum_resource": 0.5, "minimum_early_stopping_rate": 1},
            {"reduction_factor": None, "minimum_resource": None, "maximum_resource": None, "minimum_early_stopping_rate": None}])),
        "Ensemble": lambda: {"ensemble_size": draw(st.sampled_from([None, 1, 25, 40])), "hillclimb_size": draw(st.sampled_from([None, 0, 5, 10_000])), "max_models": draw(st.sampled_from([None, 1, 200, 7]))},
        "RandomSearch": lambda: {},
    }[which]()
    return {"which": which, "given": given, "positional": draw(st.booleans()), "rows": draw(st.lists(st.sampled_from([10, 20, 50, 499, 501]), max_size=3)), "leave_out": draw(st.booleans())}


STATIC = {
    "AsyncEA": {"population_size": 50, "max_n_evaluations": None, "restart_callback": None},
    "ASHA": {"reduction_factor": 3, "minimum_resource": 0.125, "maximum_resource": 1.0, "minimum_early_stopping_rate": 0},
    "Ensemble": {"ensemble_size": 25, "hillclimb_size": None, "max_models": None}, "RandomSearch": {},
}


def check_shipped(case, ctx):
    cls = {"AsyncEA": AsyncEA, "ASHA": AsynchronousSuccessiveHalving, "Ensemble": EnsemblePostProcessing, "RandomSearch": RandomSearch}[case["which"]]
    given = dict(case["given"])
    if case["leave_out"] and case["which"] != "Ensemble":
        given = {k: v for k, v in given.items() if v is not None}
    method = cls(*given.values()) if case["positional"] and not case["leave_out"] and case["which"] not in ("Ensemble",) else cls(**given)
    expected = dict(STATIC[case["which"]])
    expected.update({k: v for k, v in given.items() if v is not None})
    got = method.hyperparameters
    require({k: got[k] for k in expected} == expected, "a setting is not the one given, else default", got, expected)
    named = described(str(method))[1]
    want = {k: str(v) for k, v in given.items() if v is not None}
    require(named == want, "the description does not name exactly what was given", str(method), want)
    for n in case["rows"]:
        x, y = kit.numeric_xy("reg", n=n)
        if case["which"] != "Ensemble":
            method.dynamic_defaults(x, y, 100)
            top = expected.get("maximum_resource")
            now = dict(expected)
            if isinstance(top, int) and not isinstance(top, bool) and n < top:
                now["maximum_resource"] = n
            got = method.hyperparameters
            same = all(got[k] == now[k] or (k == "maximum_resource" and now[k] == n and got[k] == 1.0) for k in now)
            require(same, "a setting that was given is not used with data", got, now, n)
            ctx.label("with data")
    ctx.nontrivial(bool(want))
    ctx.label(case["which"])


# ------------------------------------------------------------------------------------- constructor


@st.composite
def constructor_cases(draw):
    case = {
        "task": draw(st.sampled_from(["clf", "reg"])), "cpus": draw(st.sampled_from([1, 2, 3, 8, 64])), "n_jobs": draw(st.sampled_from([None, None, -1, 1, 2, 5])),
        "total": draw(st.sampled_from([60, 3600, 100_000])), "eval": draw(st.sampled_from([None, 10, 30])), "preset": draw(st.sampled_from([None, "simple", "performance"])),
        "post": draw(st.sampled_from([None, None, "best", "ensemble", "none"])), "search": draw(st.sampled_from([None, "ea", "random"])), "preprocessing": draw(st.integers(0, 2)) > 0,
        "max_length": draw(st.sampled_from([None, None, 1])), "config": draw(st.integers(0, 3)) == 0, "store": draw(st.sampled_from(["logs", "nothing", "all", "models"])),
        "verbosity": draw(st.sampled_from([logging.WARNING, logging.INFO, logging.CRITICAL])), "proba": draw(st.booleans()), "seed": draw(gen.seeds), "exists": draw(st.sampled_from(["no", "no", "empty"])),
    }
    if case["preprocessing"]:
        case["max_length"] = draw(st.sampled_from([None, 1, 2, 4]))
    for fault in draw(st.lists(st.sampled_from(["n_jobs", "total", "eval", "preset", "max_length", "store", "exists"]), max_size=2)):
        case[fault] = draw(st.sampled_from({"n_jobs": [0, -2, -5], "total": [0, -1, None, -0.5], "eval": [0, -4, -0.1], "preset": ["fast", "", "Simple"], "max_length": [2, 4], "store": ["everything", "", "log"], "exists": ["full"]}[fault]))
    if case["preset"] not in (None, "simple", "performance"):
        case["post"] = None
    return case


def space_for(case):
    space = {GaussianNB: {}, LogisticRegression: {"C": [0.5, 1.0]}, KNeighborsClassifier: {"n_neighbors": [1, 2]}, Perceptron: {"alpha": [0.001, 0.01]}} if case["task"] == "clf" else {Ridge: {"alpha": [0.5, 1.0]}, KNeighborsRegressor: {"n_neighbors": [1, 2]}}
    if case["preprocessing"]:
        space.update({StandardScaler: {}, MinMaxScaler: {}})
    return space


def problems(case):
    out = []
    if case["total"] is None or case["total"] <= 0:
        out.append("total")
    if case["eval"] is not None and case["eval"] <= 0:
        out.append("eval")
    if case["n_jobs"] is not None and (case["n_jobs"] == 0 or case["n_jobs"] < -1):
        out.append("n_jobs")
    if case["post"] is None and case["preset"] not in (None, "simple", "performance"):
        out.append("preset")
    if case["store"] not in ("nothing", "models", "logs", "all"):
        out.append("store")
    if not case["preprocessing"] and (case["max_length"] or 1) > 1:
        out.append("max_length")
    if case["exists"] == "full":
        out.append("directory")
    return out


def check_constructor(case, ctx):
    seed_all(case["seed"])
    folder = os.path.abspath("out")
    if case["exists"] != "no":
        os.mkdir(folder)
    if case["exists"] == "full":
        open(os.path.join(folder, "notes"), "w").write("mine")
    seen = {}

    def look(operations, start_candidates):
        seen["start"] = [i.pipeline_str() for i in start_candidates]
        with AsyncEvaluator() as evaluator:
            evaluator.submit(operations.evaluate, start_candidates[0])
            seen["result"] = operations.wait_next(evaluator).result
            seen["workers"] = evaluator.n_workers
        return [seen["result"].individual]

    kwargs = {"n_jobs": case["n_jobs"], "max_total_time": case["total"], "max_eval_time": case["eval"], "max_pipeline_length": case["max_length"], "store": case["store"], "verbosity": case["verbosity"],
              "output_directory": folder, "scoring": ("neg_log_loss" if case["proba"] else "accuracy") if case["task"] == "clf" else "r2"}
    kwargs["config" if case["config"] else "search_space"] = space_for(case)
    if case["preset"] is not None:
        kwargs["preset"] = case["preset"]
    post = {None: None, "best": BestFitPostProcessing, "ensemble": EnsemblePostProcessing, "none": NoPostProcessing}[case["post"]]
    if post is not None:
        kwargs["post_processing"] = post()
    methods = {None: None, "ea": AsyncEA, "random": RandomSearch}
    if case["search"] is not None:
        kwargs["search"] = methods[case["search"]]()
    printed = io.StringIO()
    bad = problems(case)
    x, y = kit.numeric_xy(case["task"], n=20)

    def searching(self, operations, start_candidates):
        seen["search"] = self
        self.output = look(operations, start_candidates)

    with contextlib.ExitStack() as stack:
        stack.enter_context(kit.clean_gama())
        sync = stack.enter_context(kit.SyncEvaluator(roundtrip=False))
        stack.enter_context(contextlib.redirect_stdout(printed))
        stack.enter_context(mock.patch.object(multiprocessing, "cpu_count", lambda: case["cpus"]))
        stack.enter_context(mock.patch.object(os, "cpu_count", lambda: case["cpus"]))
        for method in (AsyncEA, RandomSearch):
            stack.enter_context(mock.patch.object(method, "search", searching))
        warned = stack.enter_context(warnings.catch_warnings(record=True))
        warnings.simplefilter("always")
        try:
            g = (GamaClassifier if case["task"] == "clf" else GamaRegressor)(**kwargs)
        except ValueError as e:
            require(bad, "settings that are fine are refused", repr(e), kwargs)
            ctx.nontrivial(True)
            ctx.label(*["refused: " + b for b in bad])
            return
        require(not bad, "settings that can not be are accepted", bad)
        deprecated = [w for w in warned if issubclass(w.category, FutureWarning) and "config" in str(w.message)]
        require(bool(deprecated) == case["config"], "the deprecated name is accepted without warning, or there is a warning for nothing", case["config"])
        text = printed.getvalue()
        require(("INIT" in text) == (case["verbosity"] <= logging.INFO), "messages are printed that were not asked for, or not those asked for", case["verbosity"], text[:300])
        g.fit(x, y)
    expected = case["n_jobs"]
    if expected is None:
        expected = max(1, case["cpus"] // 2)
    elif expected == -1:
        expected = case["cpus"]
    require(seen["workers"] == expected, "another number of workers", seen["workers"], expected, case["cpus"])
    used = [v for v in vars(g).values() if isinstance(v, BasePostProcessing)]
    wanted = post or {None: BestFitPostProcessing, "simple": BestFitPostProcessing, "performance": EnsemblePostProcessing}[case["preset"]]
    require(len(used) == 1 and type(used[0]) is wanted, "another post-processing than given or preset", [type(u).__name__ for u in used], wanted.__name__)
    if post is not None:
        require(used[0] is kwargs["post_processing"], "the given post-processing is not used")
    require(type(seen["search"]) is (methods[case["search"]] or AsyncEA), "another search method", type(seen["search"]).__name__)
    if case["search"] is not None:
        require(seen["search"] is kwargs["search"], "the given search is not used")
    names = {n.__name__ for n in space_for(case)}
    if case["task"] == "clf" and case["proba"]:
        names.discard("Perceptron")  # it has no probabilities
    for text in seen["start"]:
        parts = [p for p in text.replace(")", "").replace(",", "(").replace(" ", "").split("(") if p and p != "data" and "=" not in p]
        require(set(parts) <= names, "components outside of the given search space", text)
        limit = case["max_length"] or (3 if case["preprocessing"] else 1)
        require(len(parts) <= limit, "start candidates are too long", text, limit)
    require(seen["result"].error is None, "the evaluation failed", str(seen["result"].error))
    if post is None and wanted is EnsemblePostProcessing or post is EnsemblePostProcessing:
        require(hasattr(g.model, "predict") and not isinstance(g.model, type(None)), "no model")
    ctx.nontrivial(True)
    ctx.label("accepted", "config" if case["config"] else "search_space", "post " + str(case["post"]))


FACETS = [
    Facet("precedence", precedence_cases, check_precedence, quick=2500, thorough=40000,
          rule="methods with generated static, given and derived settings; non-trivial: something is given and something derived"),
    Facet("shipped", shipped_cases, check_shipped, quick=800, thorough=8000,
          rule="the shipped methods with generated settings and data sizes; non-trivial: something is given"),
    Facet("constructor", constructor_cases, check_constructor, quick=700, thorough=15000,
          rule="instances made with generated settings, then searched once; non-trivial: refused, or used"),
]
