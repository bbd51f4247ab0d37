"""C10: the record of evaluations is complete and keeps exactly the best models."""
import os
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from gama.configuration.parser import pset_from_config
from gama.genetic_programming.components import Individual
from gama.utilities.evaluation_library import Evaluation, EvaluationLibrary
from harness import components as comp, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["scores are numbers or minus infinity (not nan), all of the same length"]

PSET = None
inf = float("inf")


def pset():
    global PSET
    if PSET is None:
        PSET, _ = pset_from_config({comp.Scale: {"a": [1, 2]}, comp.Tree: {"b": list(range(6))}})
    return PSET


def make_individual(i):
    text = f"Tree(data, Tree.b={i % 6})" if i < 6 else f"Tree(Scale(data, Scale.a=1), Tree.b={i % 6})"
    return Individual.from_string(text, pset())


@st.composite
def histories(draw):
    n_scores = draw(st.integers(1, 2))
    value = st.sampled_from([-inf, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5])
    size = draw(st.sampled_from([1, 4, 6, 9]))
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        kind = draw(st.sampled_from(["save"] * 8 + ["best", "best_all"]))
        if kind == "save":
            ops.append(["save", draw(st.integers(0, 8)), draw(st.integers(0, 3)) == 3, draw(st.lists(value, min_size=n_scores, max_size=n_scores)),
                        draw(st.sampled_from([None, None, None, None, "<class 'ValueError'> oops", ""])), draw(st.integers(0, 6))])
        else:
            ops.append([kind, draw(st.integers(1, 12))])
    return {"m": draw(st.sampled_from([0, 1, 2, 3, 5, 200, None])), "n": draw(st.sampled_from([10_000, None, 3, 1, 5, 0])),
            "size": size, "wide": draw(st.booleans()), "ops": ops, "container": draw(st.sampled_from(["array", "pandas", "none"])),
            "sample": draw(st.sampled_from([None, None, None, "given", "stratify", "size"])), "classes": draw(st.lists(st.integers(0, 2), min_size=size, max_size=size)),
            "seed": draw(st.integers(0, 99)), "mkdir": draw(st.booleans()), "clear": draw(st.booleans())}


def check_history(case, ctx):
    seed_all(case["seed"])
    size, m, n = case["size"], case["m"], case["n"]
    cache = os.path.join(os.getcwd(), "cache")
    if case["mkdir"]:
        os.mkdir(cache)
    given = [size - 1, 0] if case["sample"] == "given" else None
    if given is not None and n == 0:
        n = 3  # asking for no predictions and for a sample at once has no defined meaning
    lib = EvaluationLibrary(m=m, n=n, sample=None if given is None else np.array(given), cache=cache)
    wanted = given
    if case["sample"] == "stratify":
        lib.determine_sample_indices(stratify=np.array(case["classes"]))
    elif case["sample"] == "size":
        lib.determine_sample_indices(prediction_size=size)
    individuals = {}
    saved = []  # (evaluation, individual, score, error, estimators, predictions)
    last = {}
    for op in case["ops"]:
        if op[0] == "save":
            _, i, repeat, score, error, k = op
            if repeat and i in individuals:
                ind = individuals[i]
                ctx.label("repeated individual")
            else:
                ind = individuals[i] = make_individual(i)
            serial = len(saved)
            full = np.arange(size, dtype=float) + 100 * serial
            if case["wide"]:
                full = np.stack([full, full + 0.25], axis=1)
            predictions = full.copy()
            if case["container"] == "pandas":
                predictions = pd.DataFrame(predictions) if case["wide"] else pd.Series(predictions)
            if case["container"] == "none" and k == 6:
                predictions, full = None, None
            models = [["model", serial, j] for j in range(k % 4)]
            e = Evaluation(ind, predictions, tuple(score), [list(v) for v in models], error=error, duration=serial, pid=1)
            lib.save_evaluation(e)
            saved.append((e, ind, tuple(score), error, models, full))
            last[ind.pipeline_str()] = e
        else:
            got = lib.n_best(op[1], with_pipelines=op[0] == "best")
            ok = sorted([s for s in saved if s[3] is None], key=lambda s: s[2], reverse=True)
            if op[0] == "best" or m is None or op[1] <= m:
                expected = [s[2] for s in (ok if m is None else ok[:m])][: op[1]]
                require(all(g.error is None for g in got), "a failed evaluation among the best")
            else:
                expected = sorted([s[2] for s in saved], reverse=True)[: op[1]]
            require([g.score for g in got] == expected, "not the best evaluations, best first", [g.score for g in got], expected)
            require(len({id(g) for g in got}) == len(got), "an evaluation is listed twice")
    # --- the record
    require(len(lib.evaluations) == len(saved) and {id(e) for e in lib.evaluations} == {id(s[0]) for s in saved},
            "evaluations are missing or counted more than once", len(lib.evaluations), len(saved))
    require(set(lib.lookup) == set(last) and all(lib.lookup[k] is v for k, v in last.items()), "lookup by pipeline", list(lib.lookup))
    for e, ind, score, error, models, full in saved:
        require(e.individual is ind and e.score == score and e.error == error, "a record was changed", e.score, score, e.error)
    good = [s for s in saved if s[3] is None]
    limit = len(good) if m is None else min(m, len(good))
    ranked = sorted((s[2] for s in good), reverse=True)
    keep_scores = ranked[:limit]
    kept = lib.n_best(max(1, limit)) if limit else []
    require(sorted((k.score for k in kept), reverse=True) == keep_scores, "the kept evaluations are not the best", [k.score for k in kept], keep_scores)
    by_id = {id(s[0]): s for s in saved}
    sample = None if wanted is None else np.array(wanted)
    for e in kept:
        _, _, _, error, models, full = by_id[id(e)]
        require(error is None, "a failed evaluation is kept", error)
        require(e.estimators == models, "estimators changed", e.estimators, models)
        got = e.predictions
        if n == 0 or full is None:
            require(got is None, "predictions kept although none were wanted or given", got)
            continue
        require(isinstance(got, np.ndarray), "predictions are lost", type(got))
        if sample is None:
            if n is None or size <= n:
                sample = np.arange(size)
            else:
                # determine the sample from this evaluation: values identify rows
                rows = [int(round(float(v if not case["wide"] else v[0]) - full.flat[0])) for v in got]
                require(len(rows) == n and len(set(rows)) == n and all(0 <= r < size for r in rows), "sample of predictions", rows, n, size)
                sample = np.array(rows)
                if case["sample"] == "stratify":
                    check_strata(case, rows, n, ctx)
                ctx.label("sampled")
        require(got.shape == full[sample].shape and np.array_equal(got, full[sample]), "predictions differ, or rows differ between evaluations", got.tolist(), full[sample].tolist())
        # reading twice gives the same
        require(np.array_equal(e.predictions, got) and e.estimators == models, "reading the cache changed it")
    kept_ids = {id(e) for e in kept}
    for s in saved:
        if id(s[0]) not in kept_ids:
            require(not s[0].estimators and s[0].predictions is None, "a discarded evaluation keeps estimators or predictions", s[0].score)
            ctx.label("discarded")
    files = os.listdir(cache)
    require(len(files) == limit, "cache files left or lost", len(files), limit)
    # all of this survives being pickled (the record of a run is picklable data on disk)
    ctx.label(f"m{m}", f"n{n}", "failed" if len(good) < len(saved) else "all good")
    if len({s[2] for s in good}) < len(good):
        ctx.label("ties")
    ctx.nontrivial(m is not None and 0 < m < len(good))
    if case["clear"]:
        lib.clear_cache()
        require(not os.path.exists(cache), "the cache directory is left")
    require(os.listdir(os.getcwd()) in ([], ["cache"]), "files outside the cache", os.listdir(os.getcwd()))


def check_strata(case, rows, n, ctx):
    classes = case["classes"]
    counts = {c: classes.count(c) for c in set(classes)}
    if min(counts.values()) < 2 or n < len(counts) or len(classes) - n < len(counts):
        return
    for c, k in counts.items():
        have = sum(1 for r in rows if classes[r] == c)
        require(abs(have - k * n / len(classes)) < 1 + 1e-9, "the sample is not stratified", c, have, k * n / len(classes))
    ctx.label("stratified")


@st.composite
def samples(draw):
    size = draw(st.integers(2, 40))
    return {"classes": draw(st.lists(st.integers(0, draw(st.integers(1, 3))), min_size=size, max_size=size)), "n": draw(st.integers(1, 40)),
            "at_init": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "saves": draw(st.integers(1, 3)), "how": draw(st.sampled_from(["stratify", "stratify", "series", "size"]))}


def check_sample(case, ctx):
    seed_all(case["seed"])
    classes, n = case["classes"], case["n"]
    size = len(classes)
    lib = EvaluationLibrary(m=5, n=n if case["at_init"] else 10_000, cache=os.path.join(os.getcwd(), "cache"))
    kwargs = {} if case["at_init"] else {"n": n}
    if case["how"] == "size":
        lib.determine_sample_indices(prediction_size=size, **kwargs)
    else:
        y = pd.Series(classes, index=range(7, 7 + size)) if case["how"] == "series" else np.array(classes)
        lib.determine_sample_indices(stratify=y, **kwargs)
    first = None
    for i in range(case["saves"]):
        e = Evaluation(make_individual(i), np.arange(size, dtype=float), (float(i),), [], duration=1)
        lib.save_evaluation(e)
        rows = [int(v) for v in e.predictions]
        require(len(rows) == min(n, size) and len(set(rows)) == len(rows) and set(rows) <= set(range(size)), "sample of predictions", rows, n, size)
        if first is None:
            first = rows
        require(rows == first, "evaluations are sampled differently", rows, first)
    if n < size and case["how"] != "size":
        check_strata(case, first, n, ctx)
        ctx.nontrivial()
    ctx.label(case["how"], "smaller" if n < size else "all")


FACETS = [
    Facet("history", histories, check_history, 1600, 40000, "more successful evaluations were saved than models are kept"),
    Facet("sample", samples, check_sample, 600, 12000, "a class-stratified sample smaller than the predictions was asked for"),
]
