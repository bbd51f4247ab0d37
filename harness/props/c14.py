"""C14: successive halving promotes only the best and returns the highest rung reached."""
import math
from fractions import Fraction

import stopit
from hypothesis import strategies as st

from gama.configuration.parser import pset_from_config
from gama.genetic_programming.components import Individual
from gama.search_methods import AsynchronousSuccessiveHalving
from gama.search_methods.asha import asha
from harness import kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "evaluations are simulated: scores, failures and the order of completion come from the case; jobs and results cross a pickle boundary",
    "minimum and maximum resource are of the same type, the minimum is at most the maximum and the number of rows, and the number of skipped rungs leaves one",
]

SPACE = {"task": "clf", "shared": {}, "param_check": False,
         "ops": [["t", 0, {"a": ["list", [1, 2]]}], ["p", 0, {"b": ["range", [0, 9]]}], ["p", 1, {}]]}


def top_rung(low, high, eta):
    """Smallest k with low * eta**k >= high, exactly."""
    low, high = Fraction(str(low)), Fraction(str(high))
    k = 0
    while low * eta**k < high:
        k += 1
    return k


@st.composite
def cases(draw):
    rows = draw(st.sampled_from([12, 20, 30]))
    kind = draw(st.sampled_from(["default", "float", "int", "beyond"]))
    eta = draw(st.sampled_from([2, 3, 3, 4, 5]))
    if kind == "float":
        low, high = draw(st.sampled_from([(0.125, 1.0), (0.1, 1.0), (0.2, 0.6), (0.04, 1.0), (0.5, 0.5), (0.25, 1.0), (0.008, 1.0)]))
    elif kind == "int":
        low, high = draw(st.sampled_from([(1, 12), (2, 8), (3, 12), (4, 4), (1, 9), (1, 5), (5, 11)]))
    elif kind == "beyond":  # more rows asked for than there are
        low, high = draw(st.sampled_from([(1, 125), (2, 1000), (5, 31), (10, 200)]))
    else:
        low, high = None, None
    eff = {"default": (0.125, 1.0), "beyond": (low, rows)}.get(kind, (low, high))
    top = top_rung(*eff, eta if kind != "default" else 3)
    return {
        "kind": kind, "eta": None if kind == "default" else eta, "low": low, "high": high, "rows": rows,
        "skip": draw(st.sampled_from([None, None, 0, max(0, top - 1), top] + list(range(0, top + 1)))),
        "workers": draw(st.sampled_from([1, 2, 4])), "picks": draw(st.lists(st.integers(0, 3), min_size=1, max_size=10)),
        "outcomes": draw(st.lists(kit.outcomes, min_size=1, max_size=40)), "warm": draw(st.one_of(st.none(), st.integers(1, 12))),
        "full": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))),
        "stop": [draw(st.sampled_from(["wait", "wait", "wait", "submit"])), 160 - draw(st.integers(0, 160)), draw(st.sampled_from(["kbi", "timeout"]))],
        "length": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
    }


def the_individual(future):
    return next(a for a in list(future.args) + list(future.kwargs.values()) if isinstance(a, Individual))


def check(case, ctx):
    seed_all(case["seed"])
    kit.SCRIPT.set(case["outcomes"], length=case["length"])
    rows = case["rows"]
    eta = case["eta"] or 3
    low = case["low"] if case["low"] is not None else 0.125
    high = case["high"] if case["high"] is not None else 1.0
    if case["kind"] == "beyond":
        high = rows
    first = case["skip"] or 0
    settings = dict(reduction_factor=case["eta"], minimum_resource=case["low"], maximum_resource=case["high"], minimum_early_stopping_rate=case["skip"])
    use_full = case["full"] is not None and case["kind"] != "beyond"
    returned = {}
    if use_full:
        given_settings = {k: v for k, v in settings.items() if v is not None}

        def direct(operations, start):
            returned["value"] = asha(operations, start, max_full_evaluations=case["full"], **given_settings)
            return returned["value"]

        inner = kit.ProbeSearch(direct)
    else:
        inner = AsynchronousSuccessiveHalving(**settings)
    given = {}
    search = kit.Wrapped(inner, lambda operations, start: given.update(start=list(start)))
    stopped = {}

    def stop(where, k):
        if where == case["stop"][0] and k == case["stop"][1] and not stopped:
            stopped["at"] = k
            raise KeyboardInterrupt if case["stop"][2] == "kbi" else stopit.TimeoutException()

    post = kit.RecordingPostProcessing()
    heard = []
    pset, _ = pset_from_config(kit.build_space(SPACE))
    from gama.genetic_programming.compilers.scikitlearn import compile_individual

    warm = None if case["warm"] is None else [Individual.from_string(f"Tree(data, Tree.b={i % 9})", pset, compile_individual) for i in range(case["warm"])]
    warm_copy = None if warm is None else list(warm)
    with kit.clean_gama(), kit.SyncEvaluator(case["picks"], on_wait=lambda k: stop("wait", k), on_submit=lambda k: stop("submit", k), n_workers=case["workers"], window=True) as sync:
        g = kit.make_gama("clf", search_space=kit.build_space(SPACE), search=search, post_processing=post, scoring="accuracy", regularize_length=case["length"])
        g.evaluation_completed(heard.append)
        x, y = kit.numeric_xy("clf", n=rows)
        g.fit(x, y, warm_start=warm)
    final = [c for c in post.calls if c[0] == "post_process"][0][4]
    if warm is not None:
        require([i._id for i in warm] == [i._id for i in warm_copy], "the list of start candidates was changed", len(warm))

    # --- resources
    top = top_rung(low, high, eta)
    resources = {r: min(Fraction(str(low)) * eta**r, Fraction(str(high))) for r in range(first, top + 1)}
    executed = dict(zip((id(f) for f in sync.completed), zip(kit.SCRIPT.log, kit.SCRIPT.kwargs)))
    require(len(kit.SCRIPT.log) == len(sync.completed), "an evaluation was executed more than once", len(kit.SCRIPT.log), len(sync.completed))

    # --- replay of the history
    rung_scores = {r: [] for r in resources}  # rung -> [(score, id)] of completed evaluations
    promoted = {r: set() for r in resources}
    where = {}  # id -> rung it was last evaluated on (None while outstanding)
    fitness_at = {}
    waiting = [str(i._id) for i in given["start"]]
    outstanding = {}  # id(future) -> (individual id, rung)
    n_promotions = 0

    def promotable(r):
        n = len(rung_scores[r]) // eta
        return n > len(promoted[r]) and any(i not in promoted[r] for _, i in rung_scores[r])

    for kind, what in sync.events:
        if kind == "submit":
            ident = str(the_individual(what)._id)
            possible = [r for r in resources if r < top and promotable(r)]
            if ident in where:
                r = where[ident]
                require(r is not None, "a candidate was submitted while its previous evaluation was still running")
                require(r < top, "a candidate of the top rung was evaluated again")
                require(ident not in promoted[r], "a candidate was promoted twice from the same rung", r)
                n = len(rung_scores[r])
                own = max(s for s, i in rung_scores[r] if i == ident)
                better = sum(1 for s, i in rung_scores[r] if s > own)
                require(better < n // eta, "a candidate was promoted that is not among the best of its rung", own, sorted(s for s, _ in rung_scores[r]), r)
                require(r in possible, "more candidates were promoted than the reduction factor allows", r, n, len(promoted[r]))
                require(r == max(possible), "a promotion from a higher rung was possible", r, possible)
                promoted[r].add(ident)
                outstanding[id(what)] = (ident, r + 1)
                n_promotions += 1
            else:
                require(not possible, "a new candidate was started although one could be promoted", possible)
                if ident in waiting:
                    waiting.remove(ident)
                else:
                    require(not waiting, "a random candidate was started before the start candidates")
                outstanding[id(what)] = (ident, first)
            where[ident] = None
        elif kind == "done":
            ident, rung = outstanding.pop(id(what))
            (log_id, outcome), kwargs = executed[id(what)]
            require(log_id == ident, "another individual was evaluated than was submitted")
            require(kwargs.get("subsample") is not None and abs(kwargs["subsample"] - float(resources[rung])) < 1e-9, "an evaluation did not get the resource of its rung", kwargs.get("subsample"), float(resources[rung]), rung)
            if isinstance(low, int):
                require(isinstance(kwargs["subsample"], int), "a number of rows is not an integer", kwargs["subsample"])
            if what.result is None:
                continue  # the evaluation itself was lost; its candidate is too
            e = what.result
            require(e.individual.meta.get("rung") == rung, "the rung is not recorded", e.individual.meta, rung)
            require(abs(e.individual.meta.get("subsample") - float(resources[rung])) < 1e-9, "the subsample is not recorded", e.individual.meta)
            ok = outcome[0] == "ok"
            if rung == top:
                require((e.error is None) == ok, "the error of a full evaluation", e.error, outcome)
            else:
                require(e.error is not None, "an evaluation below the top rung passes for a full one", rung)
            where[ident] = rung
            rung_scores[rung].append((e.score[0], ident))
            fitness_at[(ident, rung)] = tuple(e.score)
    told = [f for f in sync.completed if f.result is not None]
    require(len(heard) == len(told) and all(a is b.result for a, b in zip(heard, told)), "subscribers were not told every completed evaluation once", len(heard), len(told))

    # --- result
    reached = [r for r in rung_scores if rung_scores[r]]
    expected = [i for _, i in rung_scores[max(reached)]] if reached else []
    if not stopped:
        require(use_full and len(rung_scores[top]) == case["full"], "the search ended by itself", len(rung_scores[top]))
        expected = [i for _, i in rung_scores[top]]
    elif use_full:
        require(len(rung_scores[top]) <= case["full"], "more full evaluations than asked for", len(rung_scores[top]))
    got = [str(i._id) for i in final]
    require(sorted(got) == sorted(expected), "the result is not the highest rung reached", len(got), len(expected), reached, top, stopped)
    for i in final:
        r = top if not stopped else max(reached)
        require(tuple(i.fitness.values) == fitness_at[(str(i._id), r)], "a returned individual has the fitness of another rung", i.fitness.values)
    ctx.label(case["kind"], "interrupted" if stopped else "complete", f"top {top}", f"reached {max(reached) - first if reached else None}")
    if n_promotions:
        ctx.label("promotions")
    ctx.nontrivial(n_promotions > 0)


FACETS = [
    Facet("halving", cases, check, 1600, 40000, "at least one candidate was promoted"),
]
