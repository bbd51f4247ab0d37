"""C09: a failing or overdue pipeline is contained and reported, never rewarded."""
import datetime
import math
import os
import time
from functools import partial

import numpy as np
import pandas as pd
import stopit
from hypothesis import strategies as st

from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import compile_individual, evaluate_individual, evaluate_pipeline
from gama.genetic_programming.components import Individual
from gama.utilities.metrics import scoring_to_metric
from harness import components as comp, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "a step that runs over time is interrupted between Python instructions (as stopit's threads do) and does not catch the interruption",
    "time limits are checked with seconds of slack",
]

KINDS = [k for k in comp.FAULTS if k != "KeyboardInterrupt"] + ["short"]
STEPS = {"FaultyScale": ("fit", "transform"), "FaultyBin": ("fit", "transform"), "learner": ("fit", "predict")}
METRICS = {
    "clf": [["accuracy"], ["neg_log_loss"], ["accuracy", "neg_log_loss"], ["roc_auc", "f1_macro"]],
    "reg": [["neg_mean_squared_error"], ["r2", "neg_mean_absolute_error"]],
}


@st.composite
def cases(draw, kinds, after=False):
    task = draw(st.sampled_from(["clf", "reg"]))
    steps = draw(st.lists(st.sampled_from(["FaultyScale", "FaultyBin"]), max_size=2, unique=True))
    where = draw(st.sampled_from(steps + ["learner"]))
    kind = draw(st.sampled_from(kinds))
    method = draw(st.sampled_from(STEPS[where])) if kind != "short" else "predict"
    where = "learner" if kind == "short" else where
    metrics = draw(st.sampled_from(METRICS[task]))
    n = draw(st.sampled_from([20, 23, 26]))
    return {"task": task, "steps": steps, "metrics": metrics, "n": n, "cv": draw(st.sampled_from([None, 3])), "length": draw(st.booleans()),
            "fault": {"step": where, "method": method, "at": draw(st.integers(0, 16)), "kind": kind},
            "subsample": draw(st.sampled_from([None, None, 0.5])), "limit": draw(st.sampled_from(["timeout", "deadline", "both"])),
            "preprocessing": draw(st.booleans())}


def setup(case):
    learner = comp.FaultyClassifier if case["task"] == "clf" else comp.FaultyRegressor
    pset, _ = pset_from_config({comp.FaultyScale: {"by": [1]}, comp.FaultyBin: {}, learner: {"salt": [1]}})
    text = "data"
    for name in case["steps"]:
        text = f"{name}({text}, FaultyScale.by=1)" if name == "FaultyScale" else f"{name}({text})"
    text = f"{learner.__name__}({text}, {learner.__name__}.salt=1)"
    extra = [("imputation", comp.PlainScaler())] if case["preprocessing"] else None
    ind = Individual.from_string(text, pset, partial(compile_individual, preprocessing_steps=extra))
    n = case["n"]
    x = pd.DataFrame({"row": np.arange(n) + 1.0, "other": np.arange(n) % 3 + 0.5})
    y = pd.Series(np.arange(n) % 2 if case["task"] == "clf" else (np.arange(n) * 7 % 11) / 3)
    kwargs = {} if case["cv"] is None else {"cv": case["cv"]}
    ev = partial(evaluate_pipeline, x=x, y_train=y, metrics=scoring_to_metric(case["metrics"]), **kwargs)
    return ind, ev


def limits(case, seconds):
    if case["limit"] == "timeout":
        return {"timeout": seconds}
    if case["limit"] == "deadline":
        return {"timeout": 1000, "deadline": time.time() + seconds}
    return {"timeout": seconds, "deadline": time.time() + 1000}


def check_record(case, e, ind, before, after, failed):
    require(e.individual is ind or e.individual == ind, "the record belongs to another individual")
    k = len(case["metrics"])
    length = (-(len(case["steps"]) + 1),) if case["length"] else ()
    if failed:
        require(e.error is not None, "a failed evaluation has no error", e.score)
        require(isinstance(e.error, str), "the error is not text", type(e.error))
        require(tuple(e.score) == (-math.inf,) * k + length, "a failed evaluation is scored", e.score)
        require(e.predictions is None and not e.estimators, "a failed evaluation keeps predictions or estimators", e.predictions, e.estimators)
    else:
        require(e.error is None, "an evaluation without fault has an error", e.error)
        require(len(e.score) == k + len(length) and all(math.isfinite(s) for s in e.score), "score of a success", e.score)
        require(tuple(e.score[k:]) == length, "the length objective is not minus the number of steps", e.score)
        require(e.predictions is not None and len(e.predictions) == case["n"] and len(e.estimators) == (case["cv"] or 5), "a success lacks predictions or estimators")
    require(isinstance(e.start_time, datetime.datetime) and before <= e.start_time <= after, "start time", e.start_time, before, after)
    require(0 <= e.duration <= (after - before).total_seconds() + 0.5, "duration", e.duration)
    require(e.pid == os.getpid(), "process id", e.pid)
    f = e.individual.fitness
    require(f is not None and tuple(f.values) == tuple(e.score), "fitness differs from the score", f)
    require(f.start_time == e.start_time and abs(f.wallclock_time - e.duration) < 0.5 and 0 <= f.process_time < 1000, "fitness times", f, e.duration)


def check_fault(case, ctx):
    seed_all(1)
    ind, ev = setup(case)
    comp.PLAN.set(case["fault"])
    kwargs = {} if case["subsample"] is None else {"subsample": case["subsample"]}
    before = datetime.datetime.now()
    e = evaluate_individual(ind, ev, add_length_to_score=case["length"], **limits(case, 500), **kwargs)
    fired = comp.PLAN.fired
    check_record(case, e, ind, before, datetime.datetime.now(), fired)
    if fired and case["fault"]["kind"] not in ("short",):
        require(case["fault"]["kind"] in e.error, "the error does not say what failed", e.error, case["fault"]["kind"])
    ctx.label("fired" if fired else "not reached", case["fault"]["kind"], f"{case['fault']['step']}.{case['fault']['method']}")
    if fired and case["fault"]["method"] != "fit" and case["fault"]["at"] >= (case["cv"] or 5) * 2:
        ctx.label("late")
    ctx.nontrivial(fired)
    # the next evaluation of the same individual is not affected
    comp.PLAN.set(None)
    before = datetime.datetime.now()
    e = evaluate_individual(ind, ev, add_length_to_score=case["length"], **limits(case, 500), **kwargs)
    check_record(case, e, ind, before, datetime.datetime.now(), False)


def check_slow(case, ctx):
    seed_all(1)
    ind, ev = setup(case)
    comp.PLAN.set({**case["fault"], "kind": "slow"})
    kwargs = {} if case["subsample"] is None else {"subsample": case["subsample"]}
    before = datetime.datetime.now()
    e = evaluate_individual(ind, ev, add_length_to_score=case["length"], **limits(case, 0.5), **kwargs)
    after = datetime.datetime.now()
    fired = comp.PLAN.fired
    elapsed = (after - before).total_seconds()
    if not fired and (elapsed > 0.4 or e.error is not None):
        return  # a busy machine; says nothing
    check_record(case, e, ind, before, after, fired)
    if fired:
        require("imeout" in e.error, "the error does not say it was a timeout", e.error)
        require(elapsed < 8, "evaluation ran on past its time", elapsed)
    ctx.label("fired" if fired else "not reached", case["limit"])
    ctx.nontrivial(fired)
    comp.PLAN.set(None)


def check_interrupts(case, ctx):
    """Keyboard interrupts and the timeout of the caller go through; an evaluation past its deadline never scores."""
    seed_all(1)
    ind, ev = setup(case)
    kind = case["fault"]["kind"]
    kwargs = {} if case["subsample"] is None else {"subsample": case["subsample"]}
    if kind == "KeyboardInterrupt":
        comp.PLAN.set(case["fault"])
        try:
            e = evaluate_individual(ind, ev, add_length_to_score=case["length"], **limits(case, 500), **kwargs)
        except KeyboardInterrupt:
            require(comp.PLAN.fired, "a keyboard interrupt from nowhere")
            ctx.nontrivial()
        else:
            require(not comp.PLAN.fired, "a keyboard interrupt did not reach the caller", e.error)
            require(e.error is None, "an evaluation without fault has an error", e.error)
    elif kind == "outer":
        comp.PLAN.set({**case["fault"], "kind": "slow"})
        began = time.time()
        record = None
        with stopit.ThreadingTimeout(0.4) as outer:
            record = evaluate_individual(ind, ev, add_length_to_score=case["length"], **limits(case, 500), **kwargs)
        if comp.PLAN.fired:
            require(record is None, "the caller's timeout was taken for the evaluation's", lambda: record.error)
            require(outer.state == outer.TIMED_OUT, "the caller's timeout did not reach it", outer.state)
            require(time.time() - began < 8, "the caller's timeout was ignored", time.time() - began)
            ctx.nontrivial()
    else:  # past the deadline
        comp.PLAN.set(None)
        try:
            e = evaluate_individual(ind, ev, add_length_to_score=case["length"], timeout=100, deadline=time.time() - case["fault"]["at"] / 4, **kwargs)
        except ValueError:
            e = None
        if e is not None:
            require(e.error is not None and e.score[0] == -math.inf, "an evaluation past its deadline was scored", e.score)
        ctx.nontrivial()
    ctx.label(kind, "fired" if comp.PLAN.fired else "not reached")
    comp.PLAN.set(None)


@st.composite
def late(draw):
    """Faults after the scores were computed, when the predictions are collected."""
    case = draw(cases(KINDS))
    k = case["cv"] or 5
    f = case["fault"]
    if f["method"] == "fit":
        f["method"] = "predict" if f["step"] == "learner" else "transform"
    per_fold = 1 if f["step"] == "learner" else 2
    if case["task"] == "clf" and f["step"] == "learner":
        uses = {"accuracy": {"p"}, "neg_log_loss": {"pp"}, "roc_auc": {"pp"}, "f1_macro": {"p"}}
        per_fold = len(set().union(*(uses[m] for m in case["metrics"])))
    elif case["task"] == "clf":
        per_fold = 1 + (2 if len(case["metrics"]) > 1 else 1)
    f["at"] = k * per_fold + draw(st.integers(0, k - 1))
    return case


FACETS = [
    Facet("fault", lambda: cases(KINDS), check_fault, 900, 24000, "the injected fault was reached"),
    Facet("late", late, check_fault, 400, 8000, "the injected fault was reached"),
    Facet("slow", lambda: cases(["slow"]), check_slow, 96, 1600, "the slow step was reached and interrupted"),
    Facet("interrupts", lambda: cases(["KeyboardInterrupt", "outer", "past"]), check_interrupts, 200, 3000, "the interruption was reached"),
]
