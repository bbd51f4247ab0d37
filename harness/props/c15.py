"""C15: any search survives interruption and yields what it evaluated."""
import os
import sys

import stopit
from hypothesis import strategies as st

from gama.configuration.parser import pset_from_config
from gama.genetic_programming.components import Individual
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from gama.search_methods.random_search import random_search
from harness import kit
from harness.core import REPO, Facet, require, seed_all

ASSUMPTIONS = [
    "evaluations are simulated: scores, failures and the order of completion come from the case",
    "interruptions are delivered while a job is submitted or awaited, or before any source line of the search methods; one evaluation that just completed may be lost by it",
]

SPACE = {"task": "clf", "shared": {}, "param_check": False,
         "ops": [["t", 0, {"a": ["list", [1, 2]]}], ["t", 1, {}], ["p", 0, {"b": ["range", [0, 9]]}], ["p", 1, {"c": ["list", [True, False]]}]]}
SEARCH_DIR = os.path.join(REPO, "gama", "search_methods")


@st.composite
def cases(draw):
    method = draw(st.sampled_from(["random", "random", "ea", "asha", "random_max"]))
    where = draw(st.sampled_from(["wait", "submit", "line", "line"]))
    k = draw(st.integers(0, 24) if where == "wait" else st.integers(0, 40) if where == "submit" else st.one_of(st.integers(0, 8), st.integers(0, 400)))
    return {
        "method": method, "stop": [where, k, draw(st.sampled_from(["kbi", "timeout"]))], "max_n": draw(st.integers(1, 20)),
        "workers": draw(st.sampled_from([1, 2, 4])), "picks": draw(st.lists(st.integers(0, 3), min_size=1, max_size=10)),
        "outcomes": draw(st.lists(kit.outcomes, min_size=1, max_size=14)), "warm": draw(st.one_of(st.none(), st.integers(1, 8))),
        "size": draw(st.sampled_from([2, 3, 5])), "seed": draw(st.integers(0, 10**6)), "length": draw(st.booleans()),
        "roundtrip": draw(st.booleans()), "before": draw(st.sampled_from([0, 0, 0, 3, 8])),
    }


class InterruptAtLine:
    """Raises before the k-th line executed in the search methods' sources."""

    def __init__(self, k, raise_):
        self.k, self.raise_ = k, raise_
        self.seen = 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SEARCH_DIR):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.seen += 1
            if self.seen > self.k:
                sys.settrace(None)
                self.raise_()
        return self.local


def ids(individuals):
    return [str(i._id) for i in individuals]


def check(case, ctx):
    seed_all(case["seed"])
    kit.SCRIPT.set(case["outcomes"], length=case["length"])
    where, k_stop, what = case["stop"]
    stopped = {}

    def interrupt():
        stopped["done"] = len(sync.completed)
        raise KeyboardInterrupt if what == "kbi" else stopit.TimeoutException()

    method = case["method"]
    if method in ("random", "random_max"):
        inner = RandomSearch() if method == "random" else kit.ProbeSearch(None)
        if method == "random_max":
            out = []
            inner.output = out
            inner.fn = lambda ops, start: random_search(ops, out, start, max_evaluations=case["max_n"])
    elif method == "ea":
        inner = AsyncEA(population_size=case["size"])
    else:
        inner = AsynchronousSuccessiveHalving()
    given = {}
    previous = sys.gettrace()

    def before(operations, start):
        given["start"] = list(start)
        if where == "line":
            sys.settrace(InterruptAtLine(k_stop, interrupt))

    search = kit.Wrapped(inner, before)

    def at(kind, k):
        if stopped:
            return
        if (where == kind and k == k_stop) or k >= 160:
            interrupt()

    post = kit.RecordingPostProcessing()
    heard = []
    pset, _ = pset_from_config(kit.build_space(SPACE))
    from gama.genetic_programming.compilers.scikitlearn import compile_individual

    warm = None if case["warm"] is None else [Individual.from_string(f"Tree(data, Tree.b={i % 9})", pset, compile_individual) for i in range(case["warm"])]
    warm_copy = None if warm is None else list(warm)
    roundtrip = case["roundtrip"] or method == "asha"
    def end_first(k):
        if k >= case["before"]:
            raise stopit.TimeoutException()

    try:
        with kit.clean_gama():
            g = kit.make_gama("clf", search_space=kit.build_space(SPACE), search=search, post_processing=post, scoring="accuracy", regularize_length=case["length"])
            x, y = kit.numeric_xy("clf")
            if case["before"] and method != "random_max":  # the interrupted search is not the first of this instance
                search.before = lambda operations, start: None
                with kit.SyncEvaluator(case["picks"], roundtrip=roundtrip, on_wait=end_first, n_workers=case["workers"]):
                    g.fit(x, y)
                search.before = before
                post.calls.clear()
                ctx.label("fitted before")
            g.evaluation_completed(heard.append)
            with kit.SyncEvaluator(case["picks"], roundtrip=roundtrip, on_wait=lambda k: at("wait", k), on_submit=lambda k: at("submit", k), n_workers=case["workers"], window=True) as sync:
                try:
                    result = g.fit(x, y, warm_start=warm)
                except KeyboardInterrupt:
                    require(False, "a keyboard interrupt during the search was not handled", stopped)
                except stopit.TimeoutException:
                    require(False, "a timeout during the search was not handled", stopped)
    finally:
        sys.settrace(previous)
    require(result is g, "fit does not return the object")
    if warm is not None:
        require(ids(warm) == ids(warm_copy), "the list of start candidates was changed", len(warm), len(warm_copy))
    posts = [c for c in post.calls if c[0] == "post_process"]
    require(len(posts) == 1, "post-processing did not run once", len(posts))
    final = posts[0][4]
    done = [f for f in sync.completed if f.result is not None]
    evaluated = ids(f.result.individual for f in done)

    # --- everything that completed is on record
    lossy = where == "line" and bool(stopped)
    told = ids(e.individual for e in heard)
    require(told == evaluated or (lossy and told == evaluated[:-1]), "subscribers were not told every completed evaluation once", len(heard), len(evaluated))
    require(len(done) - lossy <= len(g._evaluation_library.evaluations) <= len(done), "evaluations missing in the record", len(done))
    entered = sum(1 for e in sync.events if e[0] == "enter")
    left = sum(1 for e in sync.events if e[0] == "exit")
    # an interruption between the end of a finished search and closing can not be handled by any code
    at_the_end = lossy and method == "random_max" and len(out) >= case["max_n"]
    require(entered == left or at_the_end, "the evaluator was not closed", entered, left)

    # --- order of submission
    submitted = []
    for f in sync.submitted:
        submitted.append(str(next(a for a in list(f.args) + list(f.kwargs.values()) if isinstance(a, Individual))._id))
    start = ids(given["start"])
    if method.startswith("random"):
        n = min(len(start), len(submitted))
        require(sorted(submitted[:n]) == sorted(start[:n]) if n == len(start) else set(submitted[:n]) <= set(start), "start candidates are not evaluated first", n)
        require(len(set(submitted)) == len(submitted), "an individual was evaluated twice")
        for f in sync.submitted[len(start):]:
            require(f.args[0].meta.get("origin") == "new", "random search evaluated something that is not a new random pipeline", f.args[0].meta)

    # --- the result
    got = ids(final)
    require(len(set(got)) == len(got), "an individual is in the result twice", got)
    require(set(got) <= set(evaluated), "the result holds individuals that were not evaluated", set(got) - set(evaluated))
    if method.startswith("random"):
        output = ids(search.output)
        if method == "random_max" and stopped:
            output = ids(out)  # returned nothing, the list passed in is filled as it goes
            require(got == [] or sorted(got) == sorted(output), "the result differs from the output")
        else:
            require(sorted(got) == sorted(output), "the result differs from the output")
        allowed = [evaluated] + ([evaluated[:-1]] if lossy else [])
        require(output in allowed, "the output is not every evaluated individual in order of completion", len(output), len(evaluated))
        if method == "random_max" and not stopped:
            require(len(output) == case["max_n"], "not the requested number of evaluations", len(output), case["max_n"])
    elif method == "ea":
        fine = [str(f.result.individual._id) for f in done if f.result.error is None]
        require(set(got) <= set(fine), "the result holds failed individuals")
        low = min(len(fine) - (1 if lossy else 0), case["size"])
        require(low <= len(got) <= case["size"] + (1 if lossy else 0), "evaluated individuals were lost", len(got), len(fine), case["size"])
    else:
        reached = {}
        for f in done[: len(done) - 1] if lossy else done:
            reached.setdefault(f.result.individual.meta["rung"], []).append(str(f.result.individual._id))
        kept = reached[max(reached)] if reached else []
        last = [evaluated[-1]] if lossy and evaluated else []
        same_or_last = sorted(got) == sorted(kept) or (lossy and (sorted(got) == sorted(kept + last) or got == last))
        require(same_or_last, "the result is not the highest rung reached", len(got), len(kept))
    values = [i.fitness.values for i in final]
    require(values == sorted(values, reverse=True), "the result is not sorted best first", values)
    ctx.label(method, f"{method} {where}" if stopped else "not interrupted", what)
    ctx.nontrivial(bool(stopped) and len(done) > 0)


FACETS = [
    Facet("interruption", cases, check, 2000, 40000, "the search was interrupted after at least one evaluation"),
]
