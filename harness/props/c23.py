"""C23: a seed fixes the result."""
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd
import stopit
from hypothesis import strategies as st

from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from harness import gen, kit
from harness.core import REPO, Facet, require, seed_all

ASSUMPTIONS = [
    "one worker, and time limits that are not reached",
    "components take their random numbers from numpy and random, as those of the default search spaces do",
]


@st.composite
def cases(draw):
    return {
        "task": draw(st.sampled_from(["clf", "reg"])), "search": draw(st.sampled_from(["AsyncEA", "AsyncEA", "RandomSearch", "ASHA"])), "post": draw(st.sampled_from(["best", "ensemble"])),
        "seed": draw(st.integers(0, 2**32 - 1)), "others": draw(st.lists(st.integers(0, 2**32 - 1), min_size=2, max_size=2, unique=True)), "k": draw(st.integers(2, 14)),
        "n": draw(st.integers(20, 40)), "data": draw(st.integers(0, 999)), "n_classes": draw(st.integers(2, 3)),
        "order": draw(st.sampled_from(["one after the other", "both made first", "seeded in between", "other made last"])), "noise": draw(gen.seeds),
        "regularize": draw(st.booleans()), "cat": draw(st.booleans()), "missing": draw(st.booleans()), "pop": draw(st.sampled_from([3, 5, 50])),
        "hillclimb": draw(st.sampled_from([10_000, 12, 7])), "compare_seeds": draw(st.integers(0, 3)) == 0,
    }


def space(task):
    from sklearn.ensemble import ExtraTreesClassifier, ExtraTreesRegressor, RandomForestClassifier, RandomForestRegressor

    out = kit.sklearn_space(task)
    if task == "clf":
        out[RandomForestClassifier] = {"n_estimators": [2, 3], "max_features": [0.5, 1.0]}
        out[ExtraTreesClassifier] = {"n_estimators": [2, 3]}
    else:
        out[RandomForestRegressor] = {"n_estimators": [2, 3], "max_features": [0.5, 1.0]}
        out[ExtraTreesRegressor] = {"n_estimators": [2, 3]}
    return out


def data(case):
    rng = np.random.RandomState(case["data"])
    n = case["n"]
    x = pd.DataFrame({"a": np.round(rng.normal(size=n), 3), "b": np.round(rng.normal(size=n), 3)})
    if case["cat"]:
        x["c"] = pd.Categorical([["u", "v", "w"][i] for i in rng.randint(0, 3, size=n)])
    if case["missing"]:
        x.loc[rng.randint(0, n, size=3), "b"] = np.nan
    y = np.array([i % case["n_classes"] for i in range(n)]) if case["task"] == "clf" else np.round(rng.normal(size=n), 3)
    new = x.sample(6, random_state=5).reset_index(drop=True)
    return x, y, new


def make(case, seed, name):
    search = {"AsyncEA": lambda: AsyncEA(population_size=case["pop"], max_n_evaluations=case["k"]), "RandomSearch": RandomSearch,
              "ASHA": lambda: AsynchronousSuccessiveHalving(minimum_resource=0.5, reduction_factor=2)}[case["search"]]()
    post = BestFitPostProcessing() if case["post"] == "best" else EnsemblePostProcessing(ensemble_size=3, hillclimb_size=case["hillclimb"])
    return kit.make_gama(case["task"], search_space=space(case["task"]), scoring="accuracy" if case["task"] == "clf" else "r2", search=search, post_processing=post, random_state=seed,
                         max_total_time=3600, max_eval_time=600, regularize_length=case["regularize"], output_directory=os.path.join(os.getcwd(), name))


class Limit:
    """Ends a search without a limit of its own after k evaluations, as reaching the time limit would."""

    def __init__(self, k):
        self.k, self.start = k, 0

    def __call__(self, completed):
        if completed - self.start >= self.k:
            raise stopit.utils.TimeoutException()


def run(g, case, sync, limit):
    x, y, new = data(case)
    heard = []
    g.evaluation_completed(lambda e: heard.append((e.individual.pipeline_str(), tuple(e.score), e.error)))
    limit.start = len(sync.completed)
    sync.scheduler.used = 0
    first = len(sync.submitted)
    g.fit(x, y)
    submitted = [f.args[0].pipeline_str() for f in sync.submitted[first:]]
    try:
        predictions = np.asarray(g.predict(new))
    except Exception:
        if case["search"] == "ASHA" and case["post"] == "ensemble":
            # No pipeline was evaluated on all data: there is nothing to make an ensemble of.
            return {"heard": heard, "submitted": submitted, "predictions": np.zeros(0), "code": []}
        raise
    if case["task"] == "clf":
        predictions = np.concatenate([predictions, np.asarray(g.predict_proba(new)).ravel()])
    return {"heard": heard, "submitted": submitted, "predictions": predictions, "code": sorted(g.export_script(file=None).split("\n"))}


def check(case, ctx):
    limit = Limit(case["k"] if case["search"] != "AsyncEA" else 10**9)
    with kit.clean_gama(), kit.SyncEvaluator(on_wait=limit, n_workers=1) as sync:
        seed_all(case["noise"])
        if case["order"] == "one after the other":
            first = run(make(case, case["seed"], "a"), case, sync, limit)
            random.random(), np.random.rand(case["noise"] % 5)
            second = run(make(case, case["seed"], "b"), case, sync, limit)
        else:
            a, b = make(case, case["seed"], "a"), make(case, case["seed"], "b")
            if case["order"] == "other made last":
                make(case, case["others"][0], "c")
            if case["order"] == "seeded in between":
                seed_all(case["noise"] + 1)
            first = run(a, case, sync, limit)
            second = run(b, case, sync, limit)
        for what, message in (("submitted", "other pipelines are tried with the same seed"), ("heard", "other evaluations with the same seed"), ("code", "another model with the same seed")):
            require(first[what] == second[what], message, lambda: first[what], lambda: second[what])
        require(np.array_equal(first["predictions"], second["predictions"]), "other predictions with the same seed", first["predictions"], second["predictions"])
        if case["compare_seeds"]:
            tried = [first["submitted"]] + [run(make(case, s, f"o{i}"), case, sync, limit)["submitted"] for i, s in enumerate(case["others"])]
            require(any(t != tried[0] for t in tried[1:]), "different seeds give the same search", case["others"], case["seed"])
            ctx.label("different seeds")
    ctx.nontrivial(len(first["heard"]) > 1 and len(set(first["submitted"])) > 1)
    ctx.label(case["search"], case["post"], case["order"])
    if any("Forest" in t or "ExtraTrees" in t for t in first["submitted"]):
        ctx.label("random component")


# ------------------------------------------------------------------------------------- long searches with scripted scores


@st.composite
def long_cases(draw):
    method = draw(st.sampled_from(["AsyncEA", "AsyncEA", "AsyncEA", "RandomSearch", "ASHA"]))
    return {
        "space": draw(kit.spaces(min_t=1, min_p=2)), "method": method, "outcomes": draw(st.lists(kit.outcomes, min_size=3, max_size=40)), "k": draw(st.integers(20, 90)),
        "warm": draw(st.sampled_from([None, 2, 4, 8, 8])), "pop": draw(st.integers(2, 9)), "regularize": draw(st.booleans()), "length": draw(st.sampled_from([None, 2, 4])),
        "seed": draw(st.integers(0, 2**32 - 1)), "noise": draw(st.lists(gen.seeds, min_size=2, max_size=2, unique=True)), "factor": draw(st.sampled_from([2, 3])),
        "restart": draw(st.one_of(st.none(), st.none(), st.integers(3, 30))),
    }


def run_long(case, which):
    """Evolution far beyond the start candidates: parents, variation and elimination all follow the seed."""
    seed_all(case["noise"][which])
    kit.SCRIPT.set(case["outcomes"], length=case["regularize"])
    limit = Limit(case["k"])
    calls = []

    def restart():
        calls.append(1)
        return len(calls) == case["restart"]

    inner = {"AsyncEA": lambda: AsyncEA(population_size=case["pop"], restart_callback=restart if case["restart"] else None), "RandomSearch": RandomSearch,
             "ASHA": lambda: AsynchronousSuccessiveHalving(reduction_factor=case["factor"])}[case["method"]]()
    post = kit.RecordingPostProcessing()
    with tempfile.TemporaryDirectory() as folder, kit.clean_gama(), kit.SyncEvaluator(on_wait=limit, n_workers=1, roundtrip=False) as sync:
        g = kit.make_gama(case["space"]["task"], search_space=kit.build_space(case["space"]), search=kit.Wrapped(inner), post_processing=post,
                          scoring="accuracy" if case["space"]["task"] == "clf" else "r2", regularize_length=case["regularize"], max_pipeline_length=case["length"], random_state=case["seed"],
                          max_total_time=3600, output_directory=os.path.join(folder, f"run{which}"))
        warm = None
        if case["warm"]:
            rng = np.random.RandomState(case["seed"])
            warm = [kit.individual_of(case["space"], a_pipeline(case["space"], rng)) for _ in range(case["warm"])]
        g.fit(*kit.numeric_xy(case["space"]["task"]), warm_start=warm)
    final = [c for c in post.calls if c[0] == "post_process"][0][4]
    return {"submitted": [f.args[0].pipeline_str() for f in sync.submitted], "final": [i.pipeline_str() for i in final]}


def compare_long(case, first, second, ctx, where=""):
    n = next((i for i, (a, b) in enumerate(zip(first["submitted"], second["submitted"])) if a != b), min(len(first["submitted"]), len(second["submitted"])))
    require(first["submitted"] == second["submitted"], "other pipelines are tried with the same seed" + where, n, lambda: first["submitted"][n:n + 2], lambda: second["submitted"][n:n + 2])
    require(first["final"] == second["final"], "another result with the same seed" + where, first["final"], second["final"])
    start = case["warm"] or 50
    ctx.nontrivial(len(first["submitted"]) > start + 5)
    ctx.label(case["method"], "beyond the start candidates" if len(first["submitted"]) > start + 5 else "start candidates only")


def check_long(case, ctx):
    compare_long(case, run_long(case, 0), run_long(case, 1), ctx)


@st.composite
def hash_cases(draw):
    return {"cases": draw(st.lists(long_cases(), min_size=8, max_size=8)), "hash": draw(st.lists(st.integers(1, 1000), min_size=2, max_size=2, unique=True))}


def child_long(case):
    return [run_long(c, 0) for c in case["cases"]]


def check_hash(case, ctx):
    """The same searches in processes that order sets and dictionaries of texts differently."""
    first, second = in_processes(case, "child_long")
    for c, a, b in zip(case["cases"], first, second):
        compare_long(c, a, b, ctx, " in another process")


def a_pipeline(space, rng):
    t = [i for i, (k, _, _) in enumerate(space["ops"]) if k == "t"]
    p = [i for i, (k, _, _) in enumerate(space["ops"]) if k == "p"]
    allowed = kit.allowed_values(space)
    chosen = [t[rng.randint(len(t))] for _ in range(rng.randint(0, 2))] + [p[rng.randint(len(p))]]
    return [[i, {hp: int(rng.randint(len(allowed[kit.op_class(space, *space["ops"][i][:2]).__name__][hp]))) for hp in space["ops"][i][2]}] for i in chosen]


# ------------------------------------------------------------------------------------- with the real worker process


@st.composite
def process_cases(draw):
    return {"task": draw(st.sampled_from(["clf", "reg"])), "seed": draw(st.integers(0, 2**32 - 1)), "k": draw(st.integers(3, 10)), "data": draw(st.integers(0, 999)),
            "post": draw(st.sampled_from(["best", "ensemble"])), "hash": draw(st.lists(st.integers(1, 1000), min_size=2, max_size=2, unique=True)), "pop": draw(st.sampled_from([3, 50])),
            "n": 30, "n_classes": 2, "cat": draw(st.booleans()), "missing": draw(st.booleans()), "regularize": draw(st.booleans()), "hillclimb": draw(st.sampled_from([10_000, 12])), "search": "AsyncEA"}


CHILD = """
import json, sys
sys.path[:0] = {path!r}
from harness.props import c23
case = json.loads(sys.argv[1])
if __name__ == "__main__":
    print("RESULT " + json.dumps(getattr(c23, sys.argv[2])(case)))
"""


def child(case):
    g = make(case, case["seed"], "out")
    x, y, new = data(case)
    heard = []
    g.evaluation_completed(lambda e: heard.append([e.individual.pipeline_str(), [float(v) for v in e.score], str(e.error)[:60]]))
    g.fit(x, y)
    return {"heard": heard, "predictions": [float(v) for v in g.predict(new)]}


def in_processes(case, function):
    """What the function gives in two processes with different hash seeds."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    path = [os.path.join(here, "third_party"), here, REPO]
    results = []
    for i, h in enumerate(case["hash"]):
        folder = os.path.join(os.getcwd(), f"run{i}")
        os.mkdir(folder)
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        out = subprocess.run([sys.executable, "-c", CHILD.format(path=path), json.dumps(case), function], cwd=folder, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=140)
        lines = [line for line in out.stdout.splitlines() if line.startswith("RESULT ")]
        require(len(lines) == 1, "the run failed", out.stderr[-1500:])
        results.append(json.loads(lines[0][7:]))
    return results


def check_process(case, ctx):
    results = in_processes(case, "child")
    first, second = results
    require(first["heard"] == second["heard"], "other evaluations with the same seed in another process", first["heard"], second["heard"])
    require(first["predictions"] == second["predictions"], "other predictions with the same seed in another process", first["predictions"], second["predictions"])
    ctx.nontrivial(len(first["heard"]) > 2)
    ctx.label("worker process", case["post"])


FACETS = [
    Facet("repeat", cases, check, quick=130, thorough=6000,
          rule="pairs of runs with one seed for all search and post-processing methods, with stochastic components, made and run in several orders; non-trivial: several different pipelines were tried"),
    Facet("long", long_cases, check_long, quick=240, thorough=8000,
          rule="pairs of searches with scripted scores that go on beyond their start candidates; non-trivial: at least five later candidates"),
    Facet("hash", hash_cases, check_hash, quick=16, thorough=300,
          rule="searches as in 'long', eight at a time, in two processes with different hash seeds; non-trivial: at least five candidates beyond the start candidates"),
    Facet("process", process_cases, check_process, quick=8, thorough=80,
          rule="pairs of runs in separate processes with different hash seeds and a real worker; non-trivial: more than two evaluations"),
]
