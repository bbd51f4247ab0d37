"""C25: repeated fits and several instances do not interfere."""
import csv
import os

import numpy as np
import pandas as pd
import stopit
from hypothesis import strategies as st

from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.genetic_programming.components import Fitness
from gama.search_methods.base_search import BaseSearch
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from harness import gen, kit
from harness.core import Facet, require, seed_all
from harness.props.c23 import a_pipeline

ASSUMPTIONS = [
    "searches are ended after a number of evaluations (as reaching the time limit would end them)",
    "every instance has a seed, so that its search does not depend on how many random numbers others took",
]


@st.composite
def datasets(draw, task):
    return {
        "n": draw(st.sampled_from([20, 24, 30, 41])), "k": draw(st.sampled_from([1, 2, 3, 52])), "seed": draw(st.integers(0, 999)), "names": draw(st.sampled_from(["f", "g"])),
        "cat": draw(st.sampled_from([0, 0, 2, 3, 12])), "missing": draw(st.booleans()), "n_classes": draw(st.integers(2, 3)), "labels": draw(st.sampled_from(["number", "text", "bool"])),
        "as_array": draw(st.integers(0, 4)) == 0,
    }


def build(data, task):
    """(training features, target, new rows)"""
    rng = np.random.RandomState(data["seed"])
    n = data["n"]
    x = pd.DataFrame(np.round(rng.normal(size=(n + 5, data["k"])), 3), columns=[f"{data['names']}{i}" for i in range(data["k"])])
    if data["missing"]:
        x.iloc[rng.randint(0, n, size=3), 0] = np.nan
    if data["as_array"]:
        new, x = x.iloc[n:].to_numpy(), x.iloc[:n].to_numpy()
    else:
        if data["cat"]:
            codes = np.concatenate([np.arange(data["cat"]), rng.randint(0, data["cat"], size=n + 5 - data["cat"])])
            x["cat"] = pd.Categorical([f"v{c}" for c in codes])
        new, x = x.iloc[n:], x.iloc[:n]
    if task == "reg":
        return x, pd.Series(np.round(rng.normal(size=n), 3)), new
    n_classes = 2 if data["labels"] == "bool" else data["n_classes"]
    names = {"number": [3, 5, 8], "text": ["no", "yes", "maybe"], "bool": [False, True]}[data["labels"]]
    return x, pd.Series([names[i % n_classes] for i in range(n)]), new


class Limit:
    """Ends a search without a limit of its own after k evaluations, as reaching the time limit would."""

    def __init__(self):
        self.k, self.start = 10**9, 0

    def __call__(self, completed):
        if completed - self.start >= self.k:
            raise stopit.utils.TimeoutException()


@st.composite
def settings(draw, task):
    return {
        "search": draw(st.sampled_from(["AsyncEA", "AsyncEA", "RandomSearch", "ASHA"])), "post": draw(st.sampled_from(["best", "best", "ensemble"])), "k": draw(st.integers(3, 7)),
        "pop": draw(st.sampled_from([3, 50])), "seed": draw(st.integers(0, 99999)), "regularize": draw(st.booleans()), "max_length": draw(st.sampled_from([None, None, 2])),
        "metric": draw(st.sampled_from(["accuracy", "neg_log_loss"] if task == "clf" else ["r2", "neg_mean_squared_error"])), "hillclimb": draw(st.sampled_from([10_000, 15, 25])),
        "max_models": draw(st.sampled_from([200, 2])), "size": draw(st.sampled_from([1, 3, 12])), "store": draw(st.sampled_from(["nothing", "models", "logs", "all"])),
        "n_jobs": draw(st.integers(1, 4)), "memory": draw(st.sampled_from([None, 100_000, 200_000])), "max_resource": draw(st.sampled_from([100_000, 1.0])), "small": draw(st.booleans()),
    }


def space(task, small=False):
    from sklearn.naive_bayes import BernoulliNB, GaussianNB
    from sklearn.linear_model import Ridge
    from sklearn.preprocessing import MinMaxScaler, Normalizer, PolynomialFeatures

    if small:  # the same pipelines are come across again and again
        learners = {GaussianNB: {}, BernoulliNB: {"fit_prior": [True, False]}} if task == "clf" else {Ridge: {"fit_intercept": [True, False], "alpha": [1.0, 5.0]}}
        return {MinMaxScaler: {}, Normalizer: {"norm": ["l1", "l2"]}, **learners}

    out = kit.sklearn_space(task)
    out[PolynomialFeatures] = {"degree": [1], "include_bias": [False, True], "interaction_only": [False, True]}  # wide data stays affordable
    return out


def make(task, s, directory, objects=None):
    if objects:
        search = objects[0]
    elif s["search"] == "AsyncEA":
        search = AsyncEA(population_size=s["pop"], max_n_evaluations=s["k"])
    elif s["search"] == "RandomSearch":
        search = RandomSearch()
    elif s["max_resource"] == 1.0:
        search = AsynchronousSuccessiveHalving(minimum_resource=0.5, maximum_resource=1.0, reduction_factor=2)
    else:
        search = AsynchronousSuccessiveHalving(minimum_resource=12, maximum_resource=s["max_resource"], reduction_factor=2)
    post = objects[1] if objects else BestFitPostProcessing() if s["post"] == "best" else EnsemblePostProcessing(ensemble_size=s["size"], hillclimb_size=s["hillclimb"], max_models=s["max_models"])
    g = kit.make_gama(task, search_space=space(task, s["small"]), scoring=s["metric"], search=search, post_processing=post, random_state=s["seed"], max_total_time=3600, max_eval_time=600,
                      regularize_length=s["regularize"], max_pipeline_length=s["max_length"], output_directory=directory, store=s["store"], n_jobs=s["n_jobs"], max_memory_mb=s["memory"])
    heard = []
    g.evaluation_completed(lambda e: heard.append((e.individual.pipeline_str(), tuple(e.score), e.error)))
    return g, search, heard


def predictions(g, task, new, allow_none):
    """What the model says about new rows; None when an ensemble found no model at all."""
    try:
        out = [np.asarray(g.predict(new))]
        if task == "clf":
            out.append(np.asarray(g.predict_proba(new)))
        return [v.tolist() for v in out]
    except Exception:
        if allow_none:
            return None
        raise


def fit(g, task, s, data, heard, sync, limit, warm_start):
    x, y, new = build(data, task)
    limit.start, limit.k = len(sync.completed), s["k"] if s["search"] != "AsyncEA" else 10**9
    first, first_instance = len(sync.submitted), len(sync.instances)
    heard.clear()
    g.fit(x, y, warm_start)
    no_model = s["search"] == "ASHA" and s["post"] == "ensemble"  # nothing may have been evaluated on all data
    found = predictions(g, task, new, no_model)
    out = {
        "submitted": [f.args[0].pipeline_str() for f in sync.submitted[first:]], "heard": list(heard), "predictions": found,
        "workers": [(e.n_workers, e.memory_limit_mb, os.path.relpath(e.logfile, g.output_directory)) for e in sync.instances[first_instance:]],
    }
    if found is not None:
        out["code"] = sorted(g.export_script(file=None).split("\n"))
        out["score"] = g.score(x, y)
    return out


def difference(a, b):
    for key in sorted(set(a) | set(b)):
        if repr(a.get(key)) != repr(b.get(key)):
            return key, a.get(key), b.get(key)
    return None


# ------------------------------------------------------------------------------------- one instance, several fits


@st.composite
def refit_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    n = draw(st.integers(2, 3))
    return {"task": task, "settings": draw(settings(task)), "data": [draw(datasets(task)) for _ in range(n)], "warm": [draw(st.sampled_from([None, None, None, "empty", "first"])) for _ in range(n)],
            "fail": draw(st.sampled_from([None, None, None, "type", "interrupt"])), "use": draw(st.booleans()), "same": draw(st.integers(0, 4)) == 0, "share": draw(st.integers(0, 4)) == 0, "noise": draw(gen.seeds)}


def check_refit(case, ctx):
    task, s = case["task"], dict(case["settings"])
    if s["small"] or s["search"] == "ASHA":
        s["k"] += 8
    limit = Limit()
    data = [case["data"][0]] * len(case["data"]) if case["same"] else case["data"]
    with kit.clean_gama(), kit.SyncEvaluator(on_wait=limit) as sync:
        seed_all(case["noise"])
        other = {"accuracy": "neg_log_loss", "neg_log_loss": "accuracy", "r2": "neg_mean_squared_error", "neg_mean_squared_error": "r2"}[s["metric"]]
        g, search, heard = make(task, dict(s, metric=other) if case["share"] else s, os.path.abspath("used"))
        first_result = None
        for i, (d, warm) in enumerate(zip(data, case["warm"])):
            last = i == len(data) - 1
            given = None
            if warm == "empty":
                given = []
            elif warm == "first" and first_result:
                given = list(first_result)
            if last:
                # The same start for an instance that has not seen the earlier data
                if case["share"]:  # another instance with the same search and post-processing objects
                    g, search, heard = make(task, s, os.path.abspath("sharing"), (search, g._post_processing))
                start = given if given is not None or case["share"] else (list(search.output) or None)
                if case["fail"] == "type":
                    try:
                        g.fit(build(d, task)[0], "not a target")
                    except TypeError:
                        pass
                elif case["fail"] == "interrupt":
                    pass
                fresh, _, fresh_heard = make(task, s, os.path.abspath("fresh"))
                expected = fit(fresh, task, s, d, fresh_heard, sync, limit, start)
                seed_all(case["noise"] + 1)
                got = fit(g, task, s, d, heard, sync, limit, given)
                wrong = difference(got, expected)
                require(wrong is None, "an instance fitted before behaves unlike a fresh one", wrong, case["warm"])
                n = len(g._evaluation_library.evaluations)
                require(n == len(got["heard"]), "evaluations of earlier data are in the record", n, len(got["heard"]))
            else:
                fit(g, task, s, d, heard, sync, limit, given)
                first_result = first_result or list(search.output)
                if case["use"]:
                    predictions(g, task, build(d, task)[2], True)
        if given is None and start:
            require(set(got["submitted"]) & {i.pipeline_str() for i in start}, "the search does not start from the previous result")
            ctx.label("continues")
    ctx.nontrivial(len(got["heard"]) > 1 and (case["same"] or data[-1] != data[-2]))
    ctx.label(s["search"], s["post"], "warm " + str(case["warm"][-1]))
    if data[-2]["k"] > 50 >= data[-1]["k"]:
        ctx.label("wide, then narrow")


# ------------------------------------------------------------------------------------- several instances


@st.composite
def history_cases(draw):
    n = draw(st.integers(2, 3))
    tasks = [draw(st.sampled_from(["clf", "reg"])) for _ in range(n)]
    ops = []
    made, fitted = set(), set()
    for _ in range(draw(st.integers(4, 9))):
        choices = [["make", i] for i in range(n) if i not in made]
        choices += [["fit", i] for i in made] * 2 + [["predict", i] for i in fitted] + [["cleanup", i] for i in made]
        kind, i = draw(st.sampled_from(choices))
        if kind == "make":
            made.add(i)
            ops.append(["make", i])
        elif kind == "fit":
            fitted.add(i)
            ops.append(["fit", i, draw(datasets(tasks[i])), draw(st.booleans())])
        elif kind == "predict":
            ops.append(["predict", i])
        else:
            ops.append(["cleanup", i, draw(st.sampled_from(["evaluations", "logs", "all"]))])
    return {"tasks": tasks, "settings": [dict(draw(settings(t)), k=draw(st.integers(3, 5))) for t in tasks], "ops": ops, "noise": draw(gen.seeds), "shared_search": False}


def directory_of(path):
    """Names and sizes of what a directory holds, with what its logs say about evaluations and phases."""
    if not os.path.isdir(path):
        return "absent"
    files = sorted(os.path.relpath(os.path.join(folder, name), path) for folder, _, names in os.walk(path) for name in names)
    files = [f if not f.startswith("cache") else "cache file" for f in files]
    out = {"files": files, "folders": sorted(d for d in os.listdir(path) if os.path.isdir(os.path.join(path, d)))}
    log = os.path.join(path, "evaluations.log")
    if os.path.exists(log):
        with open(log, newline="") as fh:
            out["evaluations"] = [[row[-3], row[-2]] if len(row) > 3 else row for row in csv.reader(fh, delimiter=";")]
    log = os.path.join(path, "gama.log")
    if os.path.exists(log):
        with open(log) as fh:
            lines = [line for line in fh.read().split("\n")]
        out["phases"] = [line.split("] ", 1)[1].split(" after")[0] for line in lines if "] START:" in line or "] STOP:" in line]
        out["made"] = sum("] INIT:" in line for line in lines)
    return out


def run_history(case, which, root, ctx=None):
    """The observations per instance of the operations on the instances in `which`."""
    limit = Limit()
    seen = {i: [] for i in which}
    objects, last_data = {}, {}
    with kit.clean_gama(), kit.SyncEvaluator(on_wait=limit) as sync:
        seed_all(case["noise"])
        for op in case["ops"]:
            kind, i = op[:2]
            if i not in which:
                continue
            task, s = case["tasks"][i], case["settings"][i]
            path = os.path.join(root, f"i{i}")
            if kind == "make":
                objects[i] = make(task, s, path)
            elif kind == "fit":
                g, search, heard = objects[i]
                seen[i].append(fit(g, task, s, op[2], heard, sync, limit, [] if op[3] else None))
                last_data[i] = op[2]
            elif kind == "predict":
                seen[i].append({"again": predictions(objects[i][0], task, build(last_data[i], task)[2], True)})
            elif kind == "cleanup":
                objects[i][0].cleanup(op[2])
            seen[i].append({"directory": directory_of(path)})
        for i in which:
            if i in last_data:
                seen[i].append({"at the end": predictions(objects[i][0], case["tasks"][i], build(last_data[i], case["tasks"][i])[2], True)})
            seen[i].append({"directory": directory_of(os.path.join(root, f"i{i}"))})
    return seen


def check_history(case, ctx):
    which = sorted({op[1] for op in case["ops"]})
    os.mkdir("together")
    together = run_history(case, which, os.path.abspath("together"))
    for i in which:
        os.mkdir(f"alone{i}")
        alone = run_history(case, [i], os.path.abspath(f"alone{i}"))[i]
        for k, (a, b) in enumerate(zip(together[i], alone)):
            wrong = difference(a, b)
            require(wrong is None, "an instance behaves otherwise because there are others", i, k, wrong)
        for observed in together[i]:
            for workers, memory, logfile in observed.get("workers", []):
                require(workers == case["settings"][i]["n_jobs"] and memory == case["settings"][i]["memory"], "other workers or limits than given", workers, memory)
    users = [op[1] for op in case["ops"] if op[0] == "fit"]
    ctx.nontrivial(len(set(users)) > 1)
    if any(users[a] == users[c] != users[b] for a in range(len(users)) for b in range(a + 1, len(users)) for c in range(b + 1, len(users))):
        ctx.label("fits interleave")
    ctx.label(f"{len(which)} instances")


# ------------------------------------------------------------------------------------- what a search starts from


@st.composite
def start_cases(draw):
    return {
        "space": draw(kit.spaces(min_t=1, min_p=2)), "fits": draw(st.lists(st.fixed_dictionaries({
            "given": st.sampled_from(["none", "none", "empty", "some", "many"]), "output": st.one_of(st.integers(0, 5), st.integers(0, 70))}), min_size=2, max_size=4)),
        "seed": draw(gen.seeds), "store": draw(st.sampled_from(["nothing", "logs"])), "length": draw(st.sampled_from([None, 3])), "pop": draw(st.integers(1, 60)),
    }


class Told(BaseSearch):
    """Writes down what it is to start from, and has a given number of results."""

    def __init__(self):
        super().__init__()
        self.started, self.n, self.rng = [], 0, np.random.RandomState(0)

    def dynamic_defaults(self, x, y, time_limit):
        pass

    def search(self, operations, start_candidates):
        self.started.append(list(start_candidates))
        self.output = [operations.individual() for _ in range(self.n)]
        for individual in self.output:
            individual.fitness = Fitness((float(self.rng.randint(5)), -float(len(individual.primitives))), 0, 0.0, 0.0)


def check_start(case, ctx):
    """Each search starts from what is given, or else from all of the result of the search before it."""
    task = case["space"]["task"]
    search = Told()
    previous = []
    with kit.clean_gama(), kit.SyncEvaluator(roundtrip=False):
        seed_all(case["seed"])
        g = kit.make_gama(task, search_space=kit.build_space(case["space"]), search=search, post_processing=kit.RecordingPostProcessing(), scoring="accuracy" if task == "clf" else "r2",
                          max_pipeline_length=case["length"], store=case["store"], max_total_time=3600, output_directory=os.path.abspath("out"))
        for step in case["fits"]:
            search.n = step["output"]
            given = {"none": None, "empty": [], "some": 3, "many": case["pop"]}[step["given"]]
            if isinstance(given, int):
                given = [kit.individual_of(case["space"], a_pipeline(case["space"], search.rng)) for _ in range(given)]
            expected = previous if given is None else given
            names = sorted(i.pipeline_str() for i in expected)
            g.fit(*kit.numeric_xy(task), warm_start=given)
            started = search.started[-1]
            if names:
                require(sorted(i.pipeline_str() for i in started) == names, "the search starts from something else than it should", step["given"], len(names), len(started))
                ctx.nontrivial(given is None)
                ctx.label("continues" if given is None else "given", "many" if len(names) > 20 else "few")
            else:
                require(len(started) > 0, "the search starts from nothing")
            previous = search.output


FACETS = [
    Facet("refit", refit_cases, check_refit, quick=100, thorough=5000,
          rule="an instance fitted on two or three datasets against a fresh one with the same start; non-trivial: more than one evaluation and other data (or the same on purpose)"),
    Facet("instances", history_cases, check_history, quick=70, thorough=4000,
          rule="interleaved histories of up to three instances against each history alone; non-trivial: two instances are fitted"),
    Facet("starts", start_cases, check_start, quick=120, thorough=6000,
          rule="up to four fits with generated results and given candidates, of up to 70 pipelines; non-trivial: a search continues from a result that is not empty"),
]
