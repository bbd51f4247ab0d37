"""C07: compiled and exported pipelines are exactly the ones that were described."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.pipeline import Pipeline

from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Fitness
from gama.utilities.export import individual_to_python
from harness import components as comp
from harness import gen, kit
from harness.core import Facet, require, seed_all
from harness.gen import missing, nan

ASSUMPTIONS = [
    "learners are deterministic given the global random seed",
    "an exported ensemble is retrained as a whole, so only its definition is compared (members, weights, voting)",
]


def same_value(a, b):
    if missing(a) and missing(b):
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if callable(a) or callable(b):
        return a is b or getattr(a, "__qualname__", a) == getattr(b, "__qualname__", b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b or (isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b)


def same_step(a, b):
    """Same class and the same parameters (learned mappings of encoders aside)."""
    if type(a) is not type(b):
        return False
    pa, pb = a.get_params(deep=False), b.get_params(deep=False)
    return set(pa) == set(pb) and all(same_value(pa[k], pb[k]) for k in pa if k != "mapping")


def run_script(script):
    space = {"__name__": "exported"}
    exec(compile(script, "exported.py", "exec"), space)
    return space


# ------------------------------------------------------------------ compiling

@st.composite
def compile_cases(draw):
    space = draw(kit.spaces())
    return {"space": space, "pipeline": draw(kit.pipelines(space)), "n_fixed": draw(st.integers(0, 3))}


class Fixed1(comp._Transformer):
    pass


class Fixed2(comp._Transformer):
    pass


class Fixed3(comp._Transformer):
    pass


def check_compile(case, ctx):
    space = case["space"]
    fixed = [(f"fixed{i}", c()) for i, c in enumerate([Fixed1, Fixed2, Fixed3][: case["n_fixed"]])]
    want = kit.pipeline_steps(space, case["pipeline"])
    for preprocessing in ([None, fixed] if fixed else [None, []]):
        ind = kit.individual_of(space, case["pipeline"], to_pipeline=lambda i: compile_individual(i, preprocessing_steps=preprocessing))
        one, two = ind.pipeline, ind.pipeline
        require(isinstance(one, Pipeline), "not a pipeline", type(one))
        k = len(preprocessing or [])
        objects = [s for _, s in one.steps]
        require(len(objects) == k + len(want), "wrong number of steps", one.steps)
        require([type(o) for o in objects[:k]] == [type(o) for _, o in (preprocessing or [])], "fixed preprocessing is not first, in order")
        require(len({n for n, _ in one.steps}) == len(one.steps), "step names are not unique")
        for (cls, params), obj in zip(want, objects[k:]):
            require(type(obj) is cls, "wrong step", type(obj).__name__, cls.__name__)
            got = obj.get_params(deep=False)
            for name, value in got.items():
                expected = params.get(name, comp.UNSET)
                require(type(value) == type(expected) and value == expected, "wrong hyperparameter value", cls.__name__, name, value, expected)
        require(all(a is not b for (_, a), (_, b) in zip(one.steps[k:], two.steps[k:])), "two compilations share a component")
        # the individual as a script of its own
        script = individual_to_python(ind)
        again = run_script(script)["pipeline"]
        own = one.steps[k:]
        require(len(again.steps) == len(own) and all(same_step(a, b) for (_, a), (_, b) in zip(again.steps, own)),
                "the script of an individual defines another pipeline", script)
    ctx.nontrivial(len(want) > 1 and any(p for _, p in want))


# ------------------------------------------------------------------ exporting after fit

@st.composite
def data(draw, task):
    n = draw(st.integers(12, 24))
    k = draw(st.integers(1, 3))
    rng = draw(gen.seeds)
    cats = draw(st.lists(st.sampled_from([2, 3, 5, 11]), max_size=3))
    wide = draw(st.integers(0, 5)) == 5
    return {"n": n, "k": k, "rng": rng, "cats": cats, "wide": wide, "intnames": draw(st.integers(0, 3)) == 3, "miss": draw(st.booleans()),
            "labels": draw(st.sampled_from(["int", "text"])) if task == "clf" else None, "classes": draw(st.integers(2, 3))}


def tables(d, task):
    rng = np.random.RandomState(d["rng"])
    total = d["n"] + 8
    cols = {}
    for i in range(d["k"]):
        v = np.round(rng.normal(size=total) + 0.1 * i, 2)
        if d["miss"]:
            v[rng.rand(total) < 0.15] = nan
        v[0], v[1] = 0.0, 1.0
        cols[f"num {i}"] = v
    for i, c in enumerate(d["cats"]):
        v = np.concatenate([np.arange(c), rng.randint(0, c, size=total - c)]) if total > c else np.arange(total)
        cols[f"cat{i}"] = pd.Categorical([f"v{j}" for j in v])
    if d["wide"]:
        for i in range(35):
            v = rng.randint(0, 2, size=total)
            v[0], v[1] = 0, 1
            cols[f"binary_feature_number_{i}"] = pd.Categorical(["yes" if j else "no" for j in v])
    x = pd.DataFrame(cols)
    if d["intnames"]:
        x.columns = range(x.shape[1])
    if task == "clf":
        y = np.array([i % d["classes"] for i in range(total)])
        y = rng.permutation(y)
        names = ["setosa", "other", "b c"]
        y = pd.Series([names[j] for j in y] if d["labels"] == "text" else y)
    else:
        y = pd.Series(np.round(rng.normal(size=total), 2))
    n = d["n"]
    return x.iloc[:n], y.iloc[:n], x.iloc[n:], y.iloc[n:]


@st.composite
def export_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    return {"task": task, "data": draw(data(task)), "seed": draw(gen.seeds), "length": draw(st.sampled_from([None, 1, 2, 4]))}


def check_export(case, ctx):
    from gama.postprocessing import BestFitPostProcessing

    task = case["task"]
    x, y, new, _ = tables(case["data"], task)
    chosen = []

    def program(operations, start):
        # the first candidate that can be trained on this data at all
        for _ in range(12):
            ind = operations.individual()
            try:
                ind.pipeline.fit(g._x, g._y)
            except Exception:
                continue
            ind.fitness = Fitness((0.0, -1), None, 0, 0)
            chosen.append(ind)
            return [ind]
        return []

    with kit.clean_gama():
        g = kit.make_gama(task, search_space=kit.sklearn_space(task), scoring="accuracy" if task == "clf" else "r2",
                          search=kit.ProbeSearch(lambda o, s: program(o, s) or [_unfittable()]), post_processing=BestFitPostProcessing(),
                          max_pipeline_length=case["length"])
        try:
            g.export_script(file=None)
        except RuntimeError:
            pass
        else:
            require(False, "a script was exported before there is a model")
        seed_all(case["seed"])
        try:
            g.fit(x, y)
        except Unfittable:
            ctx.label("no trainable candidate drawn")
            return
        seed_all(0)
        script = g.export_script(file=None)
        exported = run_script(script)["pipeline"]
        require(isinstance(exported, Pipeline), "the script defines no pipeline")
        want = list(g._basic_encoding_pipeline.steps) + list(g.model.steps)
        require([type(s).__name__ for _, s in exported.steps] == [type(s).__name__ for _, s in want],
                "the exported steps are not those of the model", [type(s).__name__ for _, s in exported.steps], [type(s).__name__ for _, s in want])
        for (_, a), (_, b) in zip(exported.steps, want):
            require(same_step(a, b), "an exported step has other parameters", type(a).__name__, lambda: str(a.get_params())[:600], lambda: str(b.get_params())[:600])
        target = y if task == "reg" or case["data"]["labels"] == "int" else pd.Series(np.unique(y, return_inverse=True)[1], index=y.index)
        seed_all(7)
        g.model.fit(g._x, g._y)
        seed_all(7)
        exported.fit(x, target)
        ours = g.predict(new)
        theirs = exported.predict(new)
        if task == "clf" and case["data"]["labels"] == "text":
            theirs = np.unique(y)[theirs]
        ok = np.array_equal(ours, theirs) if task == "clf" else np.allclose(np.asarray(ours, float), np.asarray(theirs, float), equal_nan=True)
        require(ok, "the exported pipeline predicts differently from the model", ours, theirs)
    ctx.label(task, "wide" if case["data"]["wide"] else "narrow", f"{len(chosen[0].primitives)} steps")
    ctx.nontrivial(bool(case["data"]["cats"]) or case["data"]["miss"] or len(chosen[0].primitives) > 1)


class Unfittable(Exception):
    pass


def _unfittable():
    raise Unfittable


# ------------------------------------------------------------------ exporting an ensemble

@st.composite
def ensemble_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    d = draw(data(task))
    d["miss"] = False
    return {"task": task, "data": d, "seed": draw(gen.seeds), "metric": draw(st.sampled_from(["accuracy", "neg_log_loss"])) if task == "clf" else "neg_mean_squared_error",
            "size": draw(st.integers(1, 14)), "candidates": draw(st.integers(2, 6))}


def check_ensemble(case, ctx):
    from gama.postprocessing import EnsemblePostProcessing
    from sklearn.ensemble import VotingClassifier, VotingRegressor

    task = case["task"]
    x, y, new, _ = tables(case["data"], task)
    evaluations = []

    def program(operations, start):
        done = kit.evaluate_all(operations, [operations.individual() for _ in range(case["candidates"])])
        evaluations.extend(done)
        return [e.individual for e in done if e.error is None]

    seed_all(case["seed"])
    with kit.clean_gama(), kit.SyncEvaluator():
        post = EnsemblePostProcessing(ensemble_size=case["size"])
        g = kit.make_gama(task, search_space=kit.sklearn_space(task), scoring=case["metric"], store="all",
                          search=kit.ProbeSearch(program), post_processing=post)
        g.fit(x, y)
        if not any(e.error is None for e in evaluations):
            ctx.label("no candidate succeeded")
            return
        script = g.export_script(file=None)
        names = run_script(script)
        ensemble, pipeline = names["ensemble"], names["pipeline"]
        require(isinstance(ensemble, VotingClassifier if task == "clf" else VotingRegressor), "wrong kind of ensemble", type(ensemble))
        members = list(g.model._models.values())
        require(list(ensemble.weights) == [w for _, w in members], "the exported weights are not those of the model", ensemble.weights)
        require(len(ensemble.estimators) == len(members), "wrong number of members")
        k = len(g._fixed_pipeline_extension)
        for (_, exported), (model, _) in zip(ensemble.estimators, members):
            own = model.individual.pipeline.steps[k:]
            require(len(exported.steps) == len(own) and all(same_step(a, b) for (_, a), (_, b) in zip(exported.steps, own)),
                    "an exported member is another pipeline", exported, own)
        if task == "clf":
            require(ensemble.voting == ("soft" if case["metric"] == "neg_log_loss" else "hard"), "wrong voting", ensemble.voting)
        pre = list(g._basic_encoding_pipeline.steps) + list(g._fixed_pipeline_extension)
        got = pipeline.steps[:-1]
        require(len(got) == len(pre) and all(same_step(a, b) for (_, a), (_, b) in zip(got, pre)), "the exported preprocessing is not that of the model")
        require(pipeline.steps[-1][1] is ensemble, "the exported pipeline does not end in the ensemble")
        if case["seed"] % 8 == 0 and not (task == "clf" and case["data"]["labels"] == "text"):
            pipeline.fit(x, y)
            require(len(pipeline.predict(new)) == len(new), "the exported ensemble does not predict")
        ctx.label(task, case["metric"], f"{len(members)} members")
        ctx.nontrivial(len(members) > 1)


# ------------------------------------------------------------------ the file

file_cases = lambda: st.fixed_dictionaries({"exists": st.booleans(), "raise": st.booleans(), "seed": gen.seeds, "decoy": st.booleans(),
                                             "where": st.sampled_from(["here", "folder", "absolute"])})


def check_file(case, ctx):
    from gama.postprocessing import BestFitPostProcessing

    x, y = kit.numeric_xy("clf")

    def program(operations, start):
        ind = operations.individual()
        ind.fitness = Fitness((0.0, -1), None, 0, 0)
        return [ind]

    seed_all(case["seed"])
    from sklearn.naive_bayes import GaussianNB
    from sklearn.preprocessing import StandardScaler
    with kit.clean_gama():
        g = kit.make_gama("clf", search_space={GaussianNB: {}, StandardScaler: {}}, scoring="accuracy", search=kit.ProbeSearch(program),
                          post_processing=BestFitPostProcessing())
        g.fit(x, y)
        path = "exported_pipeline.py"
        if case["where"] != "here":
            os.mkdir("folder")
            path = os.path.join("folder" if case["where"] == "folder" else os.path.abspath("folder"), path)
            if case["decoy"]:  # a file of that name elsewhere
                with open("exported_pipeline.py", "w") as fh:
                    fh.write("decoy = 1\n")
        if case["exists"]:
            with open(path, "w") as fh:
                fh.write("before = 1\n" * 400)
        try:
            text = g.export_script(path, raise_if_exists=case["raise"])
        except FileExistsError:
            require(case["exists"] and case["raise"], "export was refused although it is allowed")
            require(open(path).read() == "before = 1\n" * 400, "the file was changed although export was refused")
        else:
            require(not (case["exists"] and case["raise"]), "an existing file was overwritten although that is not allowed")
            from_file, from_text = run_script(open(path).read())["pipeline"], run_script(text)["pipeline"]
            require(len(from_file.steps) == len(from_text.steps) and all(same_step(a, b) for (_, a), (_, b) in zip(from_file.steps, from_text.steps)),
                    "the file holds another pipeline than the returned script")
        decoy = case["decoy"] and case["where"] != "here"
        want = [path] if case["where"] == "here" else ["exported_pipeline.py", "folder"] if decoy else ["folder"]
        require(sorted(os.listdir(".")) == want and os.path.isfile(path), "files were left behind", os.listdir("."))
        require(os.listdir(os.path.dirname(path) or ".") == ["exported_pipeline.py"], "files were left behind")
        if decoy:
            require(open("exported_pipeline.py").read() == "decoy = 1\n", "another file was overwritten")
    ctx.nontrivial()


FACETS = [
    Facet("compile", compile_cases, check_compile, quick=1200, thorough=30000,
          rule="pipelines of random search spaces; non-trivial: more than one step and a hyperparameter"),
    Facet("export", export_cases, check_export, quick=640, thorough=8000, weight=2,
          rule="pipelines of scikit-learn components on mixed tables, exported, executed, retrained and compared; non-trivial: categories, missing values or several steps"),
    Facet("ensemble", ensemble_cases, check_ensemble, quick=240, thorough=3000, weight=2,
          rule="ensembles built from evaluated candidates, exported and executed; non-trivial: more than one member"),
    Facet("file", file_cases, check_file, quick=40, thorough=160, rule="writing the script to a new or existing file; all non-trivial"),
]
