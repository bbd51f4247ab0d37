"""C13: evolution evaluates what it should and its population holds the best seen."""
import stopit
from hypothesis import strategies as st

from gama.configuration.parser import pset_from_config
from gama.genetic_programming.components import Individual
from gama.search_methods import AsyncEA
from harness import kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "evaluations are simulated: scores, failures and the order of completion come from the case; workers take jobs in order of submission",
    "start candidates respect the maximum pipeline length; the search space has at least two learners with a hyperparameter choice, so that pipelines can vary",
]

SPACE = {"task": "clf", "shared": {}, "param_check": False,
         "ops": [["t", 0, {"a": ["list", [1, 2]]}], ["t", 1, {}], ["p", 0, {"b": ["range", [0, 9]]}], ["p", 1, {"c": ["list", [True, False]]}]]}


@st.composite
def cases(draw):
    size = draw(st.integers(1, 6))
    n = draw(st.integers(1, 26))
    return {
        "size": size, "max_n": n, "workers": draw(st.sampled_from([1, 2, 4])), "picks": draw(st.lists(st.integers(0, 3), min_size=1, max_size=10)),
        "outcomes": draw(st.lists(kit.outcomes, min_size=1, max_size=14)), "warm": draw(st.one_of(st.none(), st.integers(1, 8))),
        "restarts": sorted(draw(st.sets(st.integers(0, n - 1), max_size=2))) if draw(st.integers(0, 2)) == 2 else [],
        "interrupt": draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["wait", "submit"]), st.integers(0, 30), st.sampled_from(["kbi", "timeout"])).map(list))),
        "length": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "roundtrip": draw(st.booleans()),
        "max_length": draw(st.sampled_from([None, None, 1, 2, 3])),
    }


def ids(individuals):
    return [str(i._id) for i in individuals]


def weakly_better(a, b):
    return all(x >= y for x, y in zip(a, b)) and tuple(a) != tuple(b)


def warm_start(case, space):
    if case["warm"] is None:
        return None
    pset, _ = pset_from_config(kit.build_space(space))
    from gama.genetic_programming.compilers.scikitlearn import compile_individual

    return [Individual.from_string(f"Tree(data, Tree.b={i % 9})" if i % 2 or case["max_length"] == 1 else f"Tree(Scale(data, Scale.a=1), Tree.b={i % 9})", pset, compile_individual) for i in range(case["warm"])]


def check(case, ctx):
    seed_all(case["seed"])
    kit.SCRIPT.set(case["outcomes"], length=case["length"])
    size, max_n = case["size"], case["max_n"]
    snapshots = {}
    at_submit = {}
    restarted = []
    calls = {"restart": 0}
    finished = {"snapshot": None}

    def restart():
        k = calls["restart"]
        calls["restart"] += 1
        if k in case["restarts"]:
            restarted.append(len(sync.completed))
            return True
        return False

    ea = AsyncEA(population_size=size, max_n_evaluations=max_n, restart_callback=restart if case["restarts"] else None)
    given = {}

    def before(operations, start):
        given["start"] = list(start)

    search = kit.Wrapped(ea, before)

    def stop(where, k):
        if case["interrupt"] and case["interrupt"][0] == where and case["interrupt"][1] == k:
            finished["snapshot"] = list(search.output)
            finished["at"] = (where, k)
            raise KeyboardInterrupt if case["interrupt"][2] == "kbi" else stopit.TimeoutException()

    def on_wait(k):
        require(k <= max_n + 3 * size + 20, "evolution goes on after the requested number of evaluations", k, max_n)
        snapshots[k] = list(search.output)
        stop("wait", k)

    def on_submit(k):
        at_submit[k] = list(search.output)
        stop("submit", k)

    post = kit.RecordingPostProcessing()
    heard = []
    with kit.clean_gama(), kit.SyncEvaluator(case["picks"], roundtrip=case["roundtrip"], on_wait=on_wait, on_submit=on_submit, n_workers=case["workers"], window=True) as sync:
        space = SPACE
        kwargs = {"max_pipeline_length": case["max_length"]} if case["max_length"] else {}
        g = kit.make_gama("clf", search_space=kit.build_space(space), search=search, post_processing=post, scoring="accuracy", regularize_length=case["length"], **kwargs)
        g.evaluation_completed(lambda e: heard.append(e))
        warm = warm_start(case, space)
        warm_copy = None if warm is None else list(warm)
        x, y = kit.numeric_xy("clf")
        g.fit(x, y, warm_start=warm)
    final = [c for c in post.calls if c[0] == "post_process"][0][4]

    submitted = [f.args[0] for f in sync.submitted]
    done = sync.completed
    start = given["start"]
    n_start = len(start)
    interrupted = "at" in finished
    # --- start candidates
    if warm is not None:
        require(ids(start) == ids(warm_copy) and ids(warm) == ids(warm_copy), "start candidates are not the given ones, or the given list changed")
    reached = len(submitted)
    require(ids(submitted[:n_start]) == ids(start)[:reached], "start candidates are not evaluated first", len(submitted))
    if done:
        require(reached >= n_start, "an evaluation was awaited before all start candidates were submitted", reached, n_start)
    # --- number of evaluations, and telling subscribers
    if not interrupted:
        require(len(done) == max_n, "not the requested number of evaluations", len(done), max_n)
    told = [f for f in done if f.result is not None]
    require(ids(e.individual for e in heard) == ids(f.result.individual for f in told), "subscribers were not told every completed evaluation once", len(heard), len(told))
    require(all(e is f.result for e, f in zip(heard, told)), "subscribers got another record")
    require(len(g._evaluation_library.evaluations) == len(told), "evaluations missing in the record", len(told))
    # --- population after each completion
    population = []
    successes = {}
    for k, f in enumerate(done):
        if k in snapshots:
            require(ids(snapshots[k]) == ids(population), "the output differs from the population", k, ids(snapshots[k]), ids(population))
        after = snapshots.get(k + 1)
        if after is None:
            if interrupted and finished["at"][0] == "submit":
                after = finished["snapshot"]
            else:
                after = list(search.output)
        ok = f.exception is None and f.result.error is None
        if ok:
            ind = f.result.individual
            successes[str(ind._id)] = ind
            grown = population + [ind]
        else:
            grown = list(population)
        if (k + 1) in restarted:
            require(len(after) == 0 or (k + 1 == len(done)), "the population was not started again", len(after))
            if len(after):
                population = list(after)
            else:
                population = []
            ctx.label("restart")
            continue
        if len(grown) <= size:
            require(sorted(ids(after)) == sorted(ids(grown)), "the population lost, gained or kept the wrong individual", ids(after), ids(grown), ok)
        else:
            gone = [g_ for g_ in grown if str(g_._id) not in ids(after)]
            same = len(gone) == 0 and len(set(ids(grown))) < len(grown)
            require(same or (len(gone) == 1 and len(after) == size), "a full population did not drop exactly one", len(after), size, len(gone))
            for v in gone:
                worse = [o for o in grown if weakly_better(v.fitness.values, o.fitness.values)]
                require(not worse, "an individual was dropped that is better than another in every trade-off", v.fitness.values, [o.fitness.values for o in worse])
            ctx.label("eliminated")
        require(len(after) <= size, "the population exceeds its size", len(after), size)
        population = list(after)
    # --- offspring
    in_restart = set()
    for r in restarted:
        first = next((i for i, ev in enumerate(sync.events) if ev[0] == "done" and ev[1] is done[r - 1]), None)
        batch = []
        # the candidates submitted after the restart, before the next completion
        for ev in sync.events[first + 1:]:
            if ev[0] == "done":
                break
            if ev[0] == "submit":
                batch.append(ev[1])
        new = [f for f in batch if f.args[0].meta.get("origin") == "new" and not f.args[0].meta.get("parents")]
        if not interrupted or finished["at"] != ("submit", len(submitted)):
            if r < max_n:
                require(len(new) >= size, "a restart did not create new random candidates", len(new), size)
        in_restart.update(id(f) for f in new)
    for k, f in enumerate(sync.submitted):
        if k < n_start or id(f) in in_restart:
            continue
        ind = f.args[0]
        parents = ind.meta.get("parents", [])
        pop = at_submit[k]
        if parents:
            require(all(p in [i._id for i in pop] for p in parents), "an offspring has a parent outside the population", parents)
            ctx.label("offspring")
        else:
            require(len(pop) < 3, "a random individual was evaluated although there were parents to choose from", len(pop))
            ctx.label("too few parents")
    # --- result
    expected = finished["snapshot"] if interrupted else (snapshots.get(max_n) or list(search.output))
    require(sorted(ids(final)) == sorted(ids(expected)), "post-processing did not get the population", ids(final), ids(expected))
    if done and not restarted:
        last = population
        require(sorted(ids(final)) == sorted(ids(last)), "the result is not the population at the end", ids(final), ids(last))
    values = [i.fitness.values for i in final]
    require(values == sorted(values, reverse=True), "the result is not sorted best first", values)
    require(set(ids(final)) <= set(successes), "the result holds an individual that was not evaluated successfully")
    ctx.label("interrupted" if interrupted else "complete", f"workers {case['workers']}", "failures" if len(successes) < len(done) else "no failures")
    ctx.nontrivial(len(done) >= 3 and len(successes) > 0)


FACETS = [
    Facet("evolution", cases, check, 1200, 30000, "at least three evaluations completed, one successfully"),
]
