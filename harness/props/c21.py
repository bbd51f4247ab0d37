"""C21: the time budget is divided and respected."""
import contextlib
import time

import pandas as pd
import stopit
from hypothesis import strategies as st

from gama.gama import Gama
from gama.genetic_programming.components import Individual
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing, NoPostProcessing
from gama.search_methods.base_search import BaseSearch
from gama.utilities.generic.timekeeper import TimeKeeper
from harness import gen, kit
from harness.core import Facet, Violation, require, seed_all

ASSUMPTIONS = ["time passes only where the case says so (simulated clock), except in the facet with the real clock"]

seconds = st.one_of(st.integers(0, 4), st.integers(0, 400).map(lambda v: v / 4), st.integers(0, 20_000))


# ------------------------------------------------------------------------------------- keeping time


@st.composite
def keeper_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append(["start", draw(st.sampled_from(["search", "postprocess", "other"])), draw(st.one_of(st.none(), st.integers(0, 100)))])
        ops += [["advance", v] for v in draw(st.lists(seconds, max_size=3))]
        ops.append(draw(st.sampled_from([["stop"], ["stop"], ["fail", "ValueError"], ["fail", "KeyboardInterrupt"], ["fail", "TimeoutException"]])))
        ops += [["advance", v] for v in draw(st.lists(seconds, max_size=2))]
    return {"total": draw(st.one_of(st.none(), st.integers(1, 500))), "ops": ops, "margins": draw(st.lists(st.integers(0, 40).map(lambda v: v / 4), min_size=1, max_size=3))}


def raises_runtime(fn):
    try:
        fn()
    except RuntimeError:
        return True
    return False


def check_keeper(case, ctx):
    with kit.simulated_clock() as clock:
        keeper = TimeKeeper(case["total"])
        model, manager, watch = [], None, None  # [name, limit, start, end]
        for op in case["ops"]:
            if op[0] == "start" and manager is None:
                manager = keeper.start_activity(op[1], time_limit=op[2], activity_meta=["a", 1])
                watch = manager.__enter__()
                model.append([op[1], op[2], clock.now, None])
            elif op[0] == "advance":
                clock.advance(op[1])
            elif op[0] == "stop" and manager is not None:
                manager.__exit__(None, None, None)
                manager, model[-1][3] = None, clock.now
            elif op[0] == "fail" and manager is not None:
                error = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "TimeoutException": stopit.utils.TimeoutException}[op[1]]("case")
                try:
                    swallowed = manager.__exit__(type(error), error, None)
                except BaseException as e:
                    require(e is error, "another error than that of the activity", repr(e))
                else:
                    require(not swallowed, "the failure of an activity is swallowed")
                manager, model[-1][3] = None, clock.now
                ctx.label("activity failed")
            elapsed = [(clock.now if end is None else end) - start for _, _, start, end in model]
            require([a.name for a in keeper.activities] == [m[0] for m in model], "activities are not listed in order", [a.name for a in keeper.activities], model)
            require([a.stopwatch.elapsed_time for a in keeper.activities] == elapsed, "wrong time of an activity", [a.stopwatch.elapsed_time for a in keeper.activities], elapsed)
            if watch is not None:
                require(watch.elapsed_time == elapsed[-1], "wrong time of the activity", watch.elapsed_time, elapsed[-1])
            if case["total"] is None:
                require(raises_runtime(lambda: keeper.total_time_remaining), "there is time remaining without a total")
            else:
                require(keeper.total_time_remaining == case["total"] - sum(elapsed), "wrong time remaining", keeper.total_time_remaining, case["total"], elapsed)
            if manager is None:
                require(keeper.current_activity is None, "an activity that ended is still the current one")
                require(raises_runtime(lambda: keeper.current_activity_time_elapsed) and raises_runtime(lambda: keeper.current_activity_time_left), "a time without an activity")
            else:
                limit = model[-1][1]
                require(keeper.current_activity.name == model[-1][0] and keeper.current_activity_time_elapsed == elapsed[-1], "wrong time of the current activity", keeper.current_activity_time_elapsed, elapsed[-1])
                if limit is None:
                    require(raises_runtime(lambda: keeper.current_activity_time_left), "there is time left without a limit")
                else:
                    require(keeper.current_activity_time_left == limit - elapsed[-1] == keeper.current_activity.time_left, "wrong time left", keeper.current_activity_time_left, limit, elapsed[-1])
                for margin in case["margins"]:
                    over = limit is not None and elapsed[-1] - limit > margin
                    require(bool(keeper.current_activity.exceeded_limit(margin)) == over, "wrong whether the limit is exceeded", limit, elapsed[-1], margin)
        if manager is not None:
            manager.__exit__(None, None, None)
    ctx.nontrivial(len(model) > 1 and any(op[0] == "advance" and op[1] > 0 for op in case["ops"]))
    ctx.label(f"{min(len(model), 4)} activities")


# ------------------------------------------------------------------------------------- dividing time


class SlowFrame(pd.DataFrame):
    """Looking at it the first time takes time."""

    armed = []

    @property
    def _constructor(self):
        return pd.DataFrame

    def __getattribute__(self, name):
        if SlowFrame.armed:
            SlowFrame.armed.pop()()
        return super().__getattribute__(name)


@st.composite
def fit_cases(draw):
    total = draw(st.one_of(st.integers(4, 60), st.integers(60, 4000)))
    runs = draw(st.lists(st.fixed_dictionaries({
        "pre": st.one_of(st.just(0), st.integers(0, total).map(lambda v: v / 4), st.just(total + 1)), "moments": st.lists(st.integers(0, total).map(lambda v: v / 3), max_size=3),
        "rest": st.integers(0, 2 * total).map(lambda v: v / 4), "end": st.sampled_from(["normal", "normal", "TimeoutException", "KeyboardInterrupt", "ValueError"]),
    }), min_size=1, max_size=2))
    return {"task": draw(st.sampled_from(["clf", "reg", "reg"])), "total": total, "eval": draw(st.one_of(st.none(), st.integers(1, 40), st.integers(1, 8000))), "runs": runs,
            "fraction": draw(st.one_of(st.integers(0, 9).map(lambda v: v / 10), st.sampled_from(["NoPostProcessing", "BestFitPostProcessing", "EnsemblePostProcessing"]))), "seed": draw(gen.seeds)}


class Searcher(BaseSearch):
    def __init__(self, clock):
        super().__init__()
        self.clock, self.run, self.limits, self.allowed = clock, None, [], []

    def dynamic_defaults(self, x, y, time_limit):
        self.limits.append((time_limit, self.clock.now))

    def search(self, operations, start_candidates):
        self.output = []
        self.passed_on = getattr(operations.evaluate, "keywords", {}).get("timeout")
        for moment in self.run["moments"]:
            self.clock.advance(moment)

            def evaluate(pipeline, timeout=None, **kwargs):
                self.allowed.append((timeout, self.clock.now))
                return None, (0.0,), [], None

            operations.evaluate(start_candidates[0], evaluate_pipeline=evaluate)
            self.output = start_candidates[:1]
        self.clock.advance(self.run["rest"])
        if self.run["end"] != "normal":
            raise {"TimeoutException": stopit.utils.TimeoutException, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError}[self.run["end"]]()


def phase_limit(owner):
    """The limit of the phase that is under way, as the time keeper has it (None: can not be told)."""
    keeper = getattr(owner[0], "_time_manager", None) if owner else None
    return getattr(getattr(keeper, "current_activity", None), "time_limit", None)


def recording(name_or_fraction, clock, calls, owner):
    if isinstance(name_or_fraction, str):
        cls = {c.__name__: c for c in (NoPostProcessing, BestFitPostProcessing, EnsemblePostProcessing)}[name_or_fraction]
        post = type("Recording", (cls,), {"post_process": lambda self, x, y, timeout, selection: calls.append((timeout, clock.now, phase_limit(owner))) or "model"})()
        return post, {"NoPostProcessing": 0.0, "BestFitPostProcessing": 0.1, "EnsemblePostProcessing": 0.3}[name_or_fraction]
    post = kit.RecordingPostProcessing(name_or_fraction)
    post.post_process = lambda x, y, timeout, selection: calls.append((timeout, clock.now, phase_limit(owner))) or "model"
    return post, name_or_fraction


def near(a, b):
    return abs(a - b) < 1e-3


def check_fit(case, ctx):
    total = case["total"]
    with kit.clean_gama(), kit.simulated_clock() as clock, kit.SyncEvaluator():
        seed_all(case["seed"])
        calls, owner = [], []
        search = Searcher(clock)
        post, fraction = recording(case["fraction"], clock, calls, owner)
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring="accuracy" if case["task"] == "clf" else "r2", search=search, post_processing=post, max_total_time=total, max_eval_time=case["eval"])
        owner.append(g)
        allowed_eval = case["eval"] if case["eval"] is not None else max(1, round(0.1 * total))
        allowed_eval = min(allowed_eval, total)
        x, y = kit.numeric_xy(case["task"])
        for run in case["runs"]:
            pre = run["pre"] if case["task"] == "reg" else 0
            exact = (1 - fraction) * (total - pre)
            if pre <= total and exact < 2:
                continue  # the real timeout of the search phase would strike at once
            search.run, search.limits, search.allowed = run, [], []
            calls.clear()
            start = clock.now
            SlowFrame.armed[:] = [lambda: clock.advance(pre)] if case["task"] == "reg" else []
            error = None
            try:
                g.fit(make_slow(x), y)
            except (RuntimeError, ValueError) as e:
                error = e
            if pre > total:
                require(isinstance(error, RuntimeError), "preprocessing took all time, but there is no error", repr(error))
                require(not search.limits and not calls, "a phase runs although there is no time")
                ctx.label("no time left")
                continue
            if run["end"] == "ValueError":
                require(isinstance(error, ValueError), "the failure of a search is lost", repr(error))
                ctx.label("failed search")
            elif error is not None:
                raise error
            require(len(search.limits) == 1, "the search is not started once")
            limit, began = search.limits[0]
            require(near(began, start + pre), "time went by unnoticed", began - start, pre)
            require(exact - 1 - 1e-3 <= limit <= exact + 1e-3, "the search does not get the time that is left for it", exact, limit)
            stored = [v for v in (getattr(g, "_max_eval_time", None), search.passed_on) if v is not None]
            require(not stored or min(stored) <= total, "the limit of an evaluation exceeds the total time", stored, total)
            for timeout, now in search.allowed:
                expected = min(allowed_eval, began + limit - now)
                require(near(timeout, expected), "an evaluation gets another time limit", timeout, expected, allowed_eval)
            if run["end"] != "ValueError":
                require(len(calls) == 1, "post-processing is not started once")
                timeout, now, phase = calls[0]
                require(phase is None or abs(phase - (total - (now - start))) < 1 + 1e-3, "the post-processing phase does not get the time that remains",
                        phase, total - (now - start))
                require(near(timeout, total - (now - start)), "post-processing does not get the time that remains", timeout, total - (now - start))
            ctx.nontrivial(bool(search.allowed) or pre > 0)
            ctx.label("evaluation limit" + (" given" if case["eval"] else " derived"), run["end"])


def make_slow(x):
    armed = list(SlowFrame.armed)
    SlowFrame.armed.clear()
    frame = SlowFrame(x)
    SlowFrame.armed[:] = armed
    return frame


# ------------------------------------------------------------------------------------- the real clock


@st.composite
def real_cases(draw):
    total, fraction = draw(st.one_of(st.tuples(st.integers(2, 4), st.sampled_from([0.0, 0.2, 0.4])), st.sampled_from([(20, 0.85), (22, 0.9)])))
    return {"total": total, "fraction": fraction, "how": draw(st.sampled_from(["busy", "sleep", "evaluate"])), "task": draw(st.sampled_from(["clf", "reg"]))}


def check_real(case, ctx):
    limits, ended = [], []

    def work(operations, start_candidates):
        begin = time.time()
        try:
            while time.time() - begin < 100:
                if case["how"] == "sleep":
                    time.sleep(0.02)
                elif case["how"] == "evaluate":
                    kit.evaluate_all(operations, start_candidates[:3], tolerate=True)  # one may start when time is just over
                else:
                    sum(range(1000))
            raise Violation("the search phase is not ended when its time is over")
        finally:
            ended.append(time.time() - begin)

    # evaluations run in processes of their own: in this one the time limit could strike inside an evaluation, which handles it
    with kit.clean_gama(), contextlib.nullcontext() if case["how"] == "evaluate" else kit.SyncEvaluator():
        post = kit.RecordingPostProcessing(case["fraction"])
        search = kit.ProbeSearch(work)
        g = kit.make_gama(case["task"], search_space=kit.sklearn_space(case["task"]), scoring="accuracy" if case["task"] == "clf" else "r2", search=search, post_processing=post, max_total_time=case["total"])
        begin = time.time()
        g.fit(*kit.numeric_xy(case["task"], n=20))
        whole = time.time() - begin
        limit = search.calls[0][3]
        require(ended and ended[0] > limit - 0.5, "the search is ended before its time is over", ended, limit)
        require(case["total"] < 20 or ended[0] < limit + 9, "the search goes on long after its time is over", ended, limit)
        require(whole < case["total"] + 30, "the fit takes much longer than it may", whole, case["total"])
        require([c[0] for c in post.calls] == ["dynamic_defaults", "post_process"], "no post-processing after the search ended", [c[0] for c in post.calls])
    ctx.nontrivial(limit >= 1)
    ctx.label(case["how"])


FACETS = [
    Facet("keeper", keeper_cases, check_keeper, quick=3000, thorough=60000,
          rule="sequences of activities with limits, failures and passing time; non-trivial: several activities and time passed"),
    Facet("fit", fit_cases, check_fit, quick=500, thorough=15000,
          rule="fits with generated budgets, fractions and durations of the phases; non-trivial: preprocessing took time or something was evaluated"),
    Facet("real", real_cases, check_real, quick=16, thorough=64,
          rule="searches that do not end by themselves, ended by the time limit on the real clock; non-trivial: a limit of at least a second"),
]
