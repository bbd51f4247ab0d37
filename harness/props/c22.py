"""C22: callbacks see every evaluation and can not break the search."""
import functools
import os

import stopit
from hypothesis import strategies as st

from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Individual
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from harness import gen, kit
from harness.core import Facet, require, seed_all
from harness.props.c15 import SPACE

ASSUMPTIONS = ["callbacks do not change the evaluations they are given", "time passes only in callbacks (simulated clock)"]

TOTAL, LIMIT, MARGIN = 1000, 900, 3


class Odd(Exception):
    """An error that has no arguments and can not be printed."""

    def __str__(self):
        raise RuntimeError("no text")


ERRORS = {"ValueError": ValueError, "StopIteration": StopIteration, "AssertionError": AssertionError, "MemoryError": MemoryError, "OSError": OSError, "Exception": Exception,
          "RecursionError": RecursionError, "TimeoutError": TimeoutError, "GeneratorReturn": RuntimeError}
STOPS = {"TimeoutException": stopit.utils.TimeoutException, "KeyboardInterrupt": KeyboardInterrupt}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    k = draw(st.one_of(st.integers(2, 25), st.integers(20, 60)))
    warm = draw(st.sampled_from([None, None, 3, 5, 9]))
    ending = draw(st.booleans())
    actions = []  # [callback, evaluation, what, argument]
    for _ in range(draw(st.integers(0, 6))):
        what = draw(st.sampled_from(["raise", "raise", "raise", "return", "pass time", "always raise"]))
        argument = draw(st.sampled_from(sorted(ERRORS))) if "raise" in what else draw(st.sampled_from(["False", "True", "error", "list"])) if what == "return" else draw(st.integers(0, 120))
        actions.append([draw(st.integers(0, n - 1)), draw(st.integers(0, k)), what, argument])
    if ending:
        what = draw(st.sampled_from(["stop", "stop", "overlong", "overlong raise"]))
        actions.append([draw(st.integers(0, n - 1)), draw(st.integers(0, k)), what, draw(st.sampled_from(sorted(STOPS))) if what == "stop" else draw(st.sampled_from([4, 50, 5000]))])
    return {"method": draw(st.sampled_from(["random", "ea", "asha"])), "n": n, "k": k, "actions": actions, "twice": draw(st.integers(0, 4)) == 0, "forms": draw(st.lists(st.sampled_from(["function", "method", "partial", "object"]), min_size=4, max_size=4)),
            "outcomes": draw(st.lists(kit.outcomes, min_size=1, max_size=12)), "picks": draw(st.lists(st.integers(0, 30), max_size=10)), "workers": draw(st.integers(1, 4)), "size": draw(st.sampled_from([3, 5, 50])), "seed": draw(gen.seeds), "warm": warm}


class Callback:
    def __init__(self, run, index, case):
        self.run, self.index, self.case = run, index, case
        self.calls = 0

    def called(self, evaluation):
        run, k = self.run, self.calls
        self.calls += 1
        run["calls"].append((self.index, k, evaluation))
        if not run["misbehave"]:
            return None
        mine = [a for a in self.case["actions"] if a[0] == self.index and (a[1] == k or (a[2] == "always raise" and a[1] <= k))]
        for _, _, what, argument in mine:
            if what == "pass time":
                if run["passed"] + argument <= LIMIT:
                    run["passed"] += argument
                    run["clock"].advance(argument)
            elif what in ("overlong", "overlong raise"):
                more = LIMIT + argument - run["passed"]
                run["passed"] += more
                run["clock"].advance(more)
                run["ended"] = (self.index, k, len(run["sync"].completed), len(run["sync"].submitted))
                if what == "overlong raise":
                    raise ValueError("late")
        for _, _, what, argument in mine:
            if what == "stop" and not run["ended"]:
                run["ended"] = (self.index, k, len(run["sync"].completed), len(run["sync"].submitted))
                raise STOPS[argument]()
        for _, _, what, argument in mine:
            if "raise" in what and what != "overlong raise":
                run["raised"] += 1
                raise ERRORS[argument]("of a callback")
            if what == "return":
                return {"False": False, "True": True, "error": ValueError("returned"), "list": [1, 2]}[argument]
        return None

    def form(self, which):
        if which == "function":
            return lambda e: self.called(e)
        if which == "method":
            return self.called
        if which == "partial":
            return functools.partial(Callback.called, self)
        return CallableObject(self)


class CallableObject:
    def __init__(self, callback):
        self.callback = callback

    def __call__(self, evaluation):
        return self.callback.called(evaluation)


def run(case, misbehave, directory):
    seed_all(case["seed"])
    kit.SCRIPT.set(case["outcomes"], length=True)
    inner = {"random": RandomSearch, "ea": lambda: AsyncEA(population_size=case["size"]), "asha": AsynchronousSuccessiveHalving}[case["method"]]()
    post = kit.RecordingPostProcessing()
    state = {"calls": [], "misbehave": misbehave, "passed": 0, "ended": None, "raised": 0}

    def limit(completed):
        if completed >= case["k"]:
            raise stopit.utils.TimeoutException()

    with kit.clean_gama(), kit.simulated_clock() as clock, kit.SyncEvaluator(case["picks"], on_wait=limit, n_workers=case["workers"], window=True) as sync:
        state["clock"], state["sync"] = clock, sync
        g = kit.make_gama("clf", search_space=kit.build_space(SPACE), search=kit.Wrapped(inner), post_processing=post, scoring="accuracy", max_total_time=TOTAL, random_state=case["seed"] % 1000,
                          output_directory=os.path.abspath(directory), store="logs")
        for i in range(case["n"]):
            callback = Callback(state, i, case)
            form = callback.form(case["forms"][i])
            g.evaluation_completed(form)
            if case["twice"] and i == case["n"] - 1 and not any(a[0] == i for a in case["actions"]):
                g.evaluation_completed(form)
        warm = None if case["warm"] is None else [Individual.from_string(f"Tree(data, Tree.b={i % 9})", g._pset, compile_individual) for i in range(case["warm"])]
        g.fit(*kit.numeric_xy("clf"), warm_start=warm)
        with open(os.path.join(directory, "evaluations.log")) as fh:
            state["logged"] = max(0, sum(1 for _ in fh) - 1)
    state["done"] = [f for f in sync.completed if f.result is not None]
    state["submitted"] = [f.args[0].pipeline_str() for f in sync.submitted]
    state["record"] = [(e.individual.pipeline_str(), tuple(e.score)) for e in sorted(g._evaluation_library.evaluations, key=lambda e: str(e.individual._id))]
    state["selected"] = [[i.pipeline_str() for i in c[4]] for c in post.calls if c[0] == "post_process"]
    state["model"] = g.model
    return state


def check(case, ctx):
    good = run(case, False, "good")
    bad = run(case, True, "bad")
    for state in (good, bad):
        per_evaluation = {}
        for index, _, evaluation in state["calls"]:
            per_evaluation.setdefault(id(evaluation), []).append(index)
        order = list(range(case["n"])) + ([case["n"] - 1] if case["twice"] and not any(a[0] == case["n"] - 1 for a in case["actions"]) else [])
        results = [f.result for f in state["done"]]
        require([id(e) for e in results] == list(per_evaluation), "callbacks are not told every completed evaluation, in order", len(results), len(per_evaluation))
        for k, e in enumerate(results):
            got = per_evaluation[id(e)]
            last = state["ended"] is not None and k == len(results) - 1
            if last:
                require(got == order[: len(got)] and state["ended"][0] in got, "callbacks are not called once, in the order of registration", got, order)
            else:
                require(got == order, "callbacks are not called once, in the order of registration", got, order)
        require(len(state["selected"]) == 1 and state["model"] == "model", "post-processing did not run once", state["selected"])
        require(state["logged"] == len(results), "not every evaluation is logged", state["logged"], len(results))
        require(len(state["record"]) == len(results), "not every evaluation is recorded", len(state["record"]), len(results))
    if bad["ended"] is None:
        for what in ("submitted", "selected"):
            require(bad[what] == good[what], "callbacks affect the search or its result", what, good[what], bad[what])
        require(sorted(bad["record"]) == sorted(good["record"]), "callbacks affect the record")
        ctx.label("errors ignored" if bad["raised"] else "no errors")
    else:
        require(len(bad["sync"].completed) == bad["ended"][2], "the search goes on after a callback ended it", bad["ended"], len(bad["sync"].completed))
        require(len(bad["submitted"]) == bad["ended"][3], "the search goes on after a callback ended it", bad["ended"], len(bad["submitted"]))
        require(bad["submitted"] == good["submitted"][: len(bad["submitted"])], "callbacks affect the search", good["submitted"], bad["submitted"])
        ctx.label("ended by callback")
    ctx.nontrivial(bool(bad["raised"]) or bad["ended"] is not None)
    ctx.label(case["method"])


FACETS = [
    Facet("callbacks", cases, check, quick=1300, thorough=40000,
          rule="searches with up to four callbacks that raise, return, take time or end the search at generated evaluations, against the same search with quiet callbacks; non-trivial: a callback raised or ended the search"),
]
