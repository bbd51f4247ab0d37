"""C19: the output directory holds exactly what was asked for."""
import os

import numpy as np
from hypothesis import strategies as st

from gama.genetic_programming.components import Individual
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing, NoPostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from harness import gen, kit
from harness.core import Facet, Violation, require, seed_all

ASSUMPTIONS = ["nobody else writes into the output directory", "the directory's parent exists and may be written to"]

PIPELINES = {
    "clf": ["GaussianNB(data)", "GaussianNB(MinMaxScaler(data))", "DecisionTreeClassifier(data, DecisionTreeClassifier.criterion='gini', DecisionTreeClassifier.max_depth=2, min_samples_leaf=1, DecisionTreeClassifier.random_state=3)",
            "BernoulliNB(data, alpha=1.0, BernoulliNB.fit_prior=True)"],
    "reg": ["Ridge(data, alpha=1.0, Ridge.fit_intercept=True)", "Ridge(MinMaxScaler(data), alpha=0.1, Ridge.fit_intercept=True)",
            "DecisionTreeRegressor(data, DecisionTreeRegressor.max_depth=3, min_samples_leaf=2, DecisionTreeRegressor.random_state=3)",
            "Ridge(data, alpha=100.0, Ridge.fit_intercept=False)"],
}
FAILING = {"clf": "GaussianNB(SelectPercentile(Binarizer(data, Binarizer.threshold=1.0), SelectPercentile.percentile=20, SelectPercentile.score_func=f_classif))", "reg": None}
OPS = ["fit", "fit", "fit", "logs", "evaluations", "all", "predict", "default"]


@st.composite
def histories(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    return {
        "task": task, "store": draw(st.sampled_from(["nothing", "models", "logs", "all"])), "post": draw(st.sampled_from(["best", "ensemble", "ensemble", "none"])),
        "dir": draw(st.sampled_from(["default", "absent", "empty", "relative", "home", "slash", "space"])), "max_models": draw(st.sampled_from([1, 2, 200])),
        "search": draw(st.sampled_from(["AsyncEA", "RandomSearch", "ASHA"])),
        "pipelines": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), "ops": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=6)),
        "data": draw(st.integers(0, 99)), "seed": draw(gen.seeds), "sentinels": draw(st.booleans()), "move": draw(st.integers(0, 2)) == 0, "memory": draw(st.booleans()),
    }


def tree(root):
    """{relative path: contents, or None for a directory} of everything below root."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root)] = None
        for f in files:
            path = os.path.join(base, f)
            with open(path, "rb") as fh:
                out[os.path.relpath(path, root)] = fh.read()
    return out


def place(case, root):
    """(argument, absolute path or None) for the case's kind of directory."""
    kind = case["dir"]
    if kind == "default":
        return None, None
    if kind == "relative":
        return "rel_out", os.path.join(root, "rel_out")
    if kind == "home":
        return "~/h_out", os.path.join(root, "home", "h_out")
    if kind == "slash":
        return os.path.join(root, "s_out") + os.sep, os.path.join(root, "s_out")
    if kind == "space":
        return os.path.join(root, "s out.d"), os.path.join(root, "s out.d")
    path = os.path.join(root, "out")
    if kind == "empty":
        os.mkdir(path)
    return path, path


def searches(name):
    return {"AsyncEA": AsyncEA, "RandomSearch": RandomSearch, "ASHA": AsynchronousSuccessiveHalving}[name]()


def check_history(case, ctx):
    root = os.getcwd()
    seed_all(case["seed"])
    os.mkdir("home")
    os.mkdir("elsewhere")
    if case["sentinels"]:
        for name in ("gama.log", "evaluations.log", "notes.txt"):
            with open(name, "w") as fh:
                fh.write("mine")
        os.mkdir("cache")
        with open(os.path.join("cache", "keep.pkl"), "w") as fh:
            fh.write("mine")
    previous_home = os.environ.get("HOME")
    os.environ["HOME"] = os.path.join(root, "home")
    try:
        _check_history(case, ctx, root)
    finally:
        if previous_home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = previous_home
        os.chdir(root)


def _check_history(case, ctx, root):
    argument, path = place(case, root)
    before = tree(root)
    search = searches(case["search"])
    texts = [PIPELINES[case["task"]][i] for i in case["pipelines"]]
    done, memory = [], []

    def program(operations, start_candidates):
        individuals = [Individual.from_string(t, g._pset, operations._safe_compile) for t in texts]
        for ind in individuals:
            ind.meta.update({"rung": 0, "subsample": 1.0})
        done[:] = kit.evaluate_all(operations, individuals)
        search.output = [e.individual for e in done]
        for evaluator in sync.instances[-1:]:
            if case["memory"] and evaluator.logfile:  # as the real evaluator does while it waits
                with open(evaluator.logfile, "a") as fh:
                    fh.write("time,process,memory\n")
                memory.append(os.path.basename(evaluator.logfile))

    search.search = program
    post = {"best": BestFitPostProcessing, "none": NoPostProcessing}.get(case["post"], lambda: EnsemblePostProcessing(ensemble_size=2, max_models=case["max_models"]))()
    x, y = kit.numeric_xy(case["task"], n=20, k=2, seed=case["data"])
    with kit.clean_gama(), kit.SyncEvaluator() as sync:
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring="accuracy" if case["task"] == "clf" else "r2", search=search, post_processing=post,
                          max_total_time=600, max_eval_time=60, output_directory=argument, store=case["store"])
        if path is None:
            new = [n for n in os.listdir(root) if n not in before]
            require(len(new) == 1 and new[0].startswith("gama_"), "no directory of its own was made", new)
            path = os.path.join(root, new[0])
        require(os.path.abspath(g.output_directory) == path, "another output directory than asked for", g.output_directory, path)
        if case["move"]:
            os.chdir("elsewhere")
        logs, cache, exists, fits, saved, expected = True, True, True, 0, 0, None

        def verify(moment):
            outside = {k: v for k, v in tree(root).items() if not (os.path.join(root, k) + os.sep).startswith(path + os.sep)}
            require(outside == {k: v for k, v in before.items() if not (os.path.join(root, k) + os.sep).startswith(path + os.sep)}, "files outside the output directory changed",
                    moment, sorted(outside), sorted(before))
            require(os.path.isdir(path) == exists, "the output directory is not as asked for", moment, os.path.isdir(path))
            if not exists:
                return
            here = tree(path)
            log_files = sorted(k for k in here if k.endswith(".log"))
            want = (["evaluations.log", "gama.log"] if case["store"] in ("logs", "all") else ["evaluations.log"]) if logs else []
            want = sorted(want + ([memory[-1]] if memory and logs else []))
            require(log_files == want, "not the logs asked for", moment, log_files, want)
            models = [k for k in here if k.startswith("cache" + os.sep)]
            require(cache or not os.path.exists(os.path.join(path, "cache")), "models were kept", moment, models)
            if cache and expected is not None:
                require(os.path.isdir(os.path.join(path, "cache")) and expected <= len(models) <= saved, "not the models asked for", moment, models, expected, saved)
            unknown = [k for k in here if k not in log_files and k not in models and k != "cache"]
            require(not unknown, "other things in the output directory", moment, unknown)

        verify("constructed")
        x_new = x.iloc[:5]
        predictions = None
        for op in case["ops"]:
            if op == "fit":
                require(g.fit(x, y) is g, "fit returned something else")
                fits += 1
                # what is in the directory after a fit follows from `store` alone
                exists = case["store"] != "nothing"
                logs = case["store"] in ("logs", "all")
                cache = case["store"] in ("models", "all")
                expected = min(case["max_models"], len(texts)) if case["post"] == "ensemble" else 0
                saved += expected
                if case["post"] != "none":
                    predictions = [g.predict(x_new), g.predict(x_new)]
            elif op == "predict":
                if case["post"] != "none" and fits:
                    require(np.array_equal(g.predict(x_new), predictions[0]), "other predictions after cleaning up")
            else:
                g.cleanup() if op == "default" else g.cleanup(op)
                if op in ("logs", "all"):
                    logs = False
                    memory.clear()
                if op in ("evaluations", "default", "all"):
                    cache = False
                    expected, saved = 0, 0
                if op == "all":
                    exists = False
            verify(op)
        for evaluator in sync.instances:
            require(evaluator.logfile is None or os.path.dirname(os.path.abspath(evaluator.logfile)) == path, "memory is logged elsewhere", evaluator.logfile)
        if logs and case["store"] in ("logs", "all") and exists and fits:
            with open(os.path.join(path, "evaluations.log")) as fh:
                header = fh.readline()
            require(header.startswith("id;"), "the evaluation log has no header", header)
    ctx.nontrivial(fits > 0 and len(case["ops"]) > 1)
    ctx.label(f"store {case['store']}", case["post"], "several fits" if fits > 1 else "one fit" if fits else "no fit", f"dir {case['dir']}")


# ------------------------------------------------------------------------------------- rejected arguments

BAD = {
    "time": dict(max_total_time=0), "time-": dict(max_total_time=-5), "time None": dict(max_total_time=None), "eval": dict(max_eval_time=0), "eval-": dict(max_eval_time=-1),
    "jobs": dict(n_jobs=0), "jobs-": dict(n_jobs=-2), "store": dict(store="everything"), "store None": dict(store=None), "preset": dict(preset="fast"), "scoring": dict(scoring="nonsense"),
    "scoring type": dict(scoring=5), "scoring part": dict(scoring=("accuracy", 3)), "length": dict(max_pipeline_length=3), "space": dict(),
}


@st.composite
def rejected(draw):
    return {"task": draw(st.sampled_from(["clf", "reg"])), "bad": draw(st.sampled_from(sorted(BAD) + ["nonempty"] * 4)),
            "dir": draw(st.sampled_from(["default", "absent", "empty", "relative", "home", "slash"])),
            "store": draw(st.sampled_from(["nothing", "models", "logs", "all"])), "content": draw(st.sampled_from(["file", "log", "cache", "hidden", "folder"])), "post": draw(st.booleans())}


def check_rejected(case, ctx):
    root = os.getcwd()
    os.mkdir("home")
    previous_home = os.environ.get("HOME")
    os.environ["HOME"] = os.path.join(root, "home")
    try:
        argument, path = place(case, root)
        kwargs = dict(store=case["store"], output_directory=argument)
        if case["bad"] == "nonempty":
            if path is None:
                kwargs["output_directory"], path = "given", os.path.join(root, "given")
            os.makedirs(path, exist_ok=True)
            if case["content"] == "folder":
                os.mkdir(os.path.join(path, "inner"))
            elif case["content"] == "cache":
                os.mkdir(os.path.join(path, "cache"))
                with open(os.path.join(path, "cache", "model.pkl"), "w") as fh:
                    fh.write("precious")
            else:
                with open(os.path.join(path, {"file": "thesis.txt", "log": "gama.log", "hidden": ".hidden"}[case["content"]]), "w") as fh:
                    fh.write("precious")
        else:
            kwargs.update(BAD[case["bad"]])
        space = kit.sklearn_space(case["task"])
        if case["bad"] == "length":
            from sklearn.base import is_classifier, is_regressor

            space = {k: v for k, v in space.items() if isinstance(k, str) or is_classifier(k) or is_regressor(k)}
        if case["bad"] == "space":
            space = {"not_a_parameter": 5, int: {}}
        kwargs.setdefault("scoring", "accuracy" if case["task"] == "clf" else "r2")
        if case["post"] and case["bad"] != "preset":
            kwargs["post_processing"] = EnsemblePostProcessing()
        before = tree(root)
        with kit.clean_gama():
            try:
                kit.make_gama(case["task"], search_space=space, **kwargs)
            except (ValueError, TypeError, KeyError, AttributeError):
                pass
            else:
                raise Violation(f"accepted: {case['bad']} {kwargs}")
            require(tree(root) == before, "a rejected call left something behind or removed something", sorted(tree(root)), sorted(before))
    finally:
        if previous_home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = previous_home
    ctx.nontrivial(case["dir"] in ("empty", "relative", "home", "slash") or case["bad"] == "nonempty")
    ctx.label(case["bad"], f"dir {case['dir']}")


# ------------------------------------------------------------------------------------- several, side by side


@st.composite
def several(draw):
    return {"task": draw(st.sampled_from(["clf", "reg"])), "stores": draw(st.lists(st.sampled_from(["nothing", "models", "logs", "all"]), min_size=2, max_size=14)),
            "remove": draw(st.lists(st.tuples(st.integers(0, 13), st.sampled_from(["all", "logs", "evaluations"])).map(list), max_size=3)), "seed": draw(gen.seeds)}


def check_several(case, ctx):
    """Each one made without a directory gets its own, also right after another, and cleaning up one leaves the others alone."""
    root = os.getcwd()
    with kit.clean_gama():
        made, places = [], []
        for store in case["stores"]:
            seed_all(case["seed"])  # a fixed seed must not make them share a directory
            made.append(kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring="accuracy" if case["task"] == "clf" else "r2", store=store))
            places.append(os.path.abspath(made[-1].output_directory))
            require(len(set(places)) == len(made) and sorted(os.listdir(root)) == sorted(os.path.basename(p) for p in places), "not a directory of its own for each", places, os.listdir(root))
            require(all(os.path.dirname(p) == root for p in places), "a directory elsewhere", places)
        for i, what in case["remove"]:
            g, place_ = made[i % len(made)], places[i % len(made)]
            others = {k: v for k, v in tree(root).items() if not (os.path.join(root, k) + os.sep).startswith(place_ + os.sep)}
            g.cleanup(what)
            left = {k: v for k, v in tree(root).items() if not (os.path.join(root, k) + os.sep).startswith(place_ + os.sep)}
            require(left == others, "cleaning up one changed another's files", what, sorted(left), sorted(others))
            require(what != "all" or not os.path.exists(place_), "the directory remains", place_)
    ctx.nontrivial(len(made) > 2 and bool(case["remove"]))
    ctx.label(f"{len(made)} made")


FACETS = [
    Facet("history", histories, check_history, quick=360, thorough=12000,
          rule="histories of construction, fits, cleaning up and predictions for all store settings, directories and post-processing methods; non-trivial: a fit and a further step"),
    Facet("rejected", rejected, check_rejected, quick=600, thorough=6000,
          rule="rejected arguments and directories in use; non-trivial: the directory existed, or its name needs interpretation"),
    Facet("several", several, check_several, quick=120, thorough=2000,
          rule="2-14 objects made one after another without a directory, then some cleaned up; non-trivial: more than two, and some cleaned up"),
]
