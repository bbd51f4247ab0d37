"""C05: variation operators only produce valid, bounded, independent pipelines."""
import contextlib
import io
import pickle
import re

from hypothesis import strategies as st

from gama.genetic_programming.components import Fitness, Individual
from harness import kit, gen
from harness.core import Facet, Violation, require, seed_all

ASSUMPTIONS = [
    "max_pipeline_length, when set, is at least 1, and is 1 when the space has no preprocessing",
    "mutation is only asked for when the space holds another pipeline within one step (otherwise there is nothing to return)",
]

MAX_POP = 14


def describe(pipeline):
    """[(class name, {hyperparameter: value}), ...] in execution order, search steps only."""
    out = []
    for name, step in pipeline.steps:
        params = {k: v for k, v in step.get_params(deep=False).items() if not (isinstance(v, str) and v == "<unset>")}
        out.append((type(step).__name__, params))
    return out


def search_steps(individual, n_fixed):
    return describe(individual.pipeline)[n_fixed:]


def validate(individual, space, max_length, n_fixed):
    """The individual is a well-formed pipeline of the space."""
    allowed = kit.allowed_values(space)
    steps = search_steps(individual, n_fixed)
    require(len(steps) == len(individual.primitives), "compiled pipeline has another length than the individual", steps)
    require(len(steps) >= 1, "empty pipeline")
    if max_length is not None:
        require(len(steps) <= max_length, "pipeline exceeds the maximum length", len(steps), max_length)
    for position, (name, params) in enumerate(steps):
        require(name in allowed, "component outside of the search space", name)
        last = position == len(steps) - 1
        require(kit.is_transformer_name(name) != last, "component in the wrong place", position, steps)
        require(set(params) == set(allowed[name]), "hyperparameters set are not those of the space", name, params)
        for hp, value in params.items():
            require(kit.value_in(value, allowed[name][hp]), "hyperparameter value outside of the space", name, hp, value)
    return steps


def has_neighbour(space, steps, max_length):
    """Is there any other pipeline one mutation away?"""
    n_t = sum(1 for k, _, _ in space["ops"] if k == "t")
    n_p = sum(1 for k, _, _ in space["ops"] if k == "p")
    if len(steps) > 1 or n_p > 1:
        return True
    if n_t > 0 and (max_length is None or len(steps) < max_length):
        return True
    allowed = kit.allowed_values(space)
    return any(len(allowed[name][hp]) > 1 for name, params in steps for hp in params)


def key(steps):
    return [(name, sorted((hp, type(v).__name__, repr(v)) for hp, v in params.items())) for name, params in steps]


def one_value_apart(a, b):
    """Same components, exactly one hyperparameter value differs."""
    a, b = key(a), key(b)
    if [n for n, _ in a] != [n for n, _ in b]:
        return False
    return sum(x != y for (_, p), (_, q) in zip(a, b) for x, y in zip(p, q)) == 1


def is_mutation(parent, child):
    """A value changed, a step replaced, a preprocessing step inserted, or steps removed at the data's end."""
    p, c = key(parent), key(child)
    if len(p) == len(c):
        return one_value_apart(parent, child) or sum(x != y for x, y in zip(p, c)) == 1
    if len(c) == len(p) + 1:
        return any(c[:i] + c[i + 1:] == p for i in range(len(c) - 1))
    return len(c) < len(p) and c == p[-len(c):]


def is_crossover(one, two, child):
    """One parent with a value of the other, or with the first steps of the other instead of its own."""
    if one_value_apart(one, child) or one_value_apart(two, child):
        return True
    a, b, c = key(one), key(two), key(child)
    return any(x[:i] + y[j:] == c for x, y in ((a, b), (b, a)) for i in range(1, len(x)) for j in range(1, len(y)))


@st.composite
def cases(draw):
    space = draw(kit.spaces())
    n_t = sum(1 for k, _, _ in space["ops"] if k == "t")
    max_length = draw(st.sampled_from([None, None, 1, 2, 2, 3, 3, 4, 6])) if n_t else draw(st.sampled_from([None, 1]))
    # Operations weigh towards building long and related pipelines.
    op = st.one_of(
        st.tuples(st.just("new")),
        st.tuples(st.just("mutate"), st.integers(0, 20)),
        st.tuples(st.just("mutate"), st.integers(0, 20)),
        st.tuples(st.just("mate"), st.integers(0, 20), st.integers(0, 20)),
        st.tuples(st.just("mate"), st.integers(0, 20), st.integers(0, 20)),
        st.tuples(st.just("create"), st.integers(1, 3)),
        st.tuples(st.just("burst"), st.integers(0, 20)),
    )
    ops = draw(st.lists(op, min_size=2, max_size=25))
    overlong = draw(kit.pipelines(space, min_pre=max_length, max_pre=max_length + 4)) if n_t and max_length else None
    return {"space": space, "max_length": max_length, "ops": ops, "seed": draw(gen.seeds),
            "regularize": draw(st.sampled_from([True, True, False])),
            "start": draw(st.integers(3, 6)), "overlong": overlong, "pickle": draw(st.booleans())}


def can_mate(steps_a, steps_b):
    """Crossover needs two pipelines with preprocessing, or a shared hyperparameter that differs."""
    if len(steps_a) > 1 and len(steps_b) > 1:
        return True
    shared = ("shared1", "shared2")
    for name_a, pa in steps_a:
        for name_b, pb in steps_b:
            for hp in pa:
                if hp in pb and (name_a == name_b or hp in shared) and pa[hp] != pb[hp]:
                    return True
    return False


def check(case, ctx):
    space, max_length = case["space"], case["max_length"]
    seed_all(case["seed"])
    failures = []

    def program(operations, start_candidates):
        try:
            run(operations, start_candidates)
        except Exception as exc:  # re-raised outside of gama's handling of search
            failures.append(exc)
        return []

    def run(operations, start_candidates):
        n_fixed = len(operations.individual().pipeline.steps) - len(operations.individual().primitives)
        probe = operations.individual()
        n_fixed = len(probe.pipeline.steps) - len(probe.primitives)
        pop = []  # (individual, its steps, its text)
        ids = set()

        def admit(individual, origin):
            require(isinstance(individual, Individual), "not an individual", type(individual))
            require(individual._id not in ids, "identity reused", origin)
            ids.add(individual._id)
            steps = validate(individual, space, max_length, n_fixed)
            require(individual.fitness is None, "new individual already has a fitness", origin)
            values = (float(len(ids) % 5), -len(steps)) if case["regularize"] else (float(len(ids) % 5),)
            individual.fitness = Fitness(values, 0, 0, 0)
            if case.get("pickle") and len(ids) % 2:
                # an individual that was evaluated elsewhere comes back as a copy
                individual = pickle.loads(pickle.dumps(individual))
                ctx.label("pickled")
            pop.append((individual, steps, individual.pipeline_str()))
            if len(pop) > MAX_POP:
                pop.pop(0)
            if len(steps) > 1:
                ctx.label("preprocessing")
            if len(steps) > 3:
                ctx.label("length>3")
            return steps

        def parents_untouched():
            for individual, steps, text in pop:
                require(individual.pipeline_str() == text, "an operation changed another individual", text, individual.pipeline_str())
                require(repr(search_steps(individual, n_fixed)) == repr(steps), "an operation changed another individual's steps", text)

        require(len(start_candidates) > 0, "no start candidates")
        for individual in start_candidates[: case["start"]]:
            admit(individual, "start")
        for individual in start_candidates[case["start"]:]:
            steps = validate(individual, space, max_length, n_fixed)
            limit = 3 if max_length is None else max_length
            require(len(steps) <= limit, "random pipeline too long", steps)

        if case["overlong"] is not None:
            # a pipeline from elsewhere (e.g. a warm start) that exceeds the limit is cut down to it
            long_one = kit.individual_of(space, case["overlong"])
            text = long_one.pipeline_str()
            child = operations.mutate(long_one)
            fixed = len(child.pipeline.steps) - len(child.primitives)
            steps = validate(child, space, max_length, fixed)
            require(key(steps) == key(search_steps(long_one, fixed))[-max_length:], "an overlong pipeline was not cut down to its last steps", text, steps)
            require(long_one.pipeline_str() == text, "mutation changed its parent", text)
            ctx.label("overlong parent")

        for op in case["ops"]:
            kind = op[0]
            if kind == "new":
                steps = admit(operations.individual(), kind)
                limit = 3 if max_length is None else max_length
                require(len(steps) <= limit, "random pipeline too long", steps)
            elif kind in ("mutate", "burst"):
                for _ in range(1 if kind == "mutate" else 6):
                    parent, psteps, ptext = pop[op[1] % len(pop)]
                    if not has_neighbour(space, psteps, max_length):
                        continue
                    child = operations.mutate(parent)
                    require(child is not parent, "mutation returned its parent")
                    steps = admit(child, kind)
                    require(repr(steps) != repr(psteps), "mutation did not change the pipeline", ptext)
                    require(is_mutation(psteps, steps), "a mutation changed more than one thing", ptext, steps)
                    require(child.meta.get("parents") == [parent._id], "parent of a mutation not recorded", child.meta)
                    ctx.nontrivial()
                    ctx.label("mutate")
                    parents_untouched()
            elif kind == "mate":
                a, sa, ta = pop[op[1] % len(pop)]
                b, sb, tb = pop[op[2] % len(pop)]
                if a is b or not can_mate(sa, sb):
                    continue
                child = operations.mate(a, b)
                require(child is not a and child is not b, "crossover returned a parent")
                steps = admit(child, kind)
                require(child.meta.get("parents") == [a._id, b._id], "parents of a crossover not recorded", child.meta)
                require(is_crossover(sa, sb, steps), "not a crossover of its parents", ta, tb, steps)
                # everything in the child stems from a parent, position by hyperparameter value
                material = {(n, hp, repr(v)) for n, p in sa + sb for hp, v in p.items()}
                shared_material = {(hp, repr(v)) for n, p in sa + sb for hp, v in p.items() if hp.startswith("shared")}
                names = {n for n, _ in sa + sb}
                for n, p in steps:
                    require(n in names, "crossover introduced a component of neither parent", n)
                    for hp, v in p.items():
                        require((n, hp, repr(v)) in material or (hp, repr(v)) in shared_material,
                                "crossover introduced a value of neither parent", n, hp, v)
                require(steps[-1][0] in (sa[-1][0], sb[-1][0]), "learner of neither parent")
                ctx.nontrivial()
                ctx.label("mate")
                if max_length is not None and len(sa) + len(sb) > max_length + 1:
                    ctx.label("mate near max length")
                parents_untouched()
            else:
                if len(pop) < 3 or not all(has_neighbour(space, s, max_length) for _, s, _ in pop):
                    continue
                children = operations.create([p[0] for p in pop], op[1])
                require(len(children) == op[1], "wrong number of offspring", len(children))
                for child in children:
                    admit(child, kind)
                ctx.label("create")
                parents_untouched()
        parents_untouched()

    with kit.clean_gama():
        kit.operators_for(space, fn=program, gama_kwargs=dict(max_pipeline_length=max_length, regularize_length=case["regularize"]))
    if failures:
        raise failures[0]


# ------------------------------------------------------------------ novelty

@st.composite
def novel_cases(draw):
    """Searches whose next pipeline is new with a known probability per try (at least one in three, or none)."""
    kind = draw(st.sampled_from(["mutate", "mate"]))
    values = [["range", [0, n]] for n in range(3, 9)]
    if kind == "mutate":
        pool = draw(st.sampled_from(values))
        hps, n = {"a": pool}, pool[1][1] - 1
    else:
        m = draw(st.integers(1, 3))
        hps, n = {hp: ["range", [0, 3]] for hp in ("a", "b", "c")[:m]}, m
    new = draw(st.one_of(st.just(0), st.integers(-(-n // 3), n)))
    order = draw(st.permutations(range(n)))
    return {"task": draw(st.sampled_from(["clf", "reg"])), "kind": kind, "hps": hps, "done": sorted(order[new:]), "n": n,
            "failed": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "own": draw(st.booleans()), "times": draw(st.integers(1, 4)), "seed": draw(gen.seeds)}


def check_novel(case, ctx):
    """An operator repeats a pipeline that was evaluated (or failed) only if it finds no other."""
    from gama.utilities.evaluation_library import Evaluation

    space = {"task": case["task"], "shared": {}, "ops": [["p", 0, case["hps"]]], "param_check": False}
    seed_all(case["seed"])
    failures = []
    zero = {hp: 0 for hp in case["hps"]}
    if case["kind"] == "mutate":
        options = [[[0, {"a": k + 1}]] for k in range(case["n"])]
    else:
        options = [[[0, dict(zero, **{hp: 1})]] for hp in case["hps"]]

    class Done:
        def __init__(self, evaluation):
            self.result, self.exception, self.traceback = evaluation, None, None

    class Waiter:
        def __init__(self, evaluation):
            self.evaluation = evaluation

        def wait_next(self):
            return Done(self.evaluation)

    def run(operations, start_candidates):
        compiled = start_candidates[0]._to_pipeline
        make = lambda choice: kit.individual_of(space, choice, to_pipeline=compiled)

        def evaluated(ind, failed):
            score = (float("-inf") if failed else 0.5, -1.0)
            ind.fitness = Fitness(score, 0, 0, 0)
            evaluation = Evaluation(ind, score=score, error="ValueError('x')" if failed else None)
            require(operations.wait_next(Waiter(evaluation)).result is evaluation, "another evaluation is returned")
            return ind

        parents = [make([[0, zero]])]
        if case["kind"] == "mate":
            parents.append(make([[0, {hp: 1 for hp in zero}]]))
        for parent in parents:
            if case["own"]:
                evaluated(parent, False)
            else:
                parent.fitness = Fitness((0.5, -1.0), 0, 0, 0)
        done = [options[k] for k in case["done"]]
        texts = {make(c).pipeline_str() for c in done}
        for k in case["done"]:
            evaluated(make(options[k]), case["failed"][k])
        # with a single differing hyperparameter the child is the other parent, which may have been evaluated too
        exhausted = len(done) == case["n"] or (case["kind"] == "mate" and case["n"] == 1 and case["own"])
        for _ in range(case["times"]):
            child = operations.mutate(parents[0]) if case["kind"] == "mutate" else operations.mate(*parents)
            text = child.pipeline_str()
            require(text in {make(c).pipeline_str() for c in options}, "not one of the pipelines that can result", text)
            if not exhausted:
                require(text not in texts, "an evaluated pipeline was returned although there are new ones", case["kind"], text, len(done), case["n"])
        ctx.nontrivial(bool(done))
        ctx.label("exhausted" if exhausted else case["kind"], *(["failure known"] if any(case["failed"][k] for k in case["done"]) else []))

    def program(operations, start_candidates):
        try:
            run(operations, start_candidates)
        except Exception as exc:
            failures.append(exc)
        return []

    with kit.clean_gama():
        kit.operators_for(space, fn=program, gama_kwargs=dict(max_pipeline_length=1))
    if failures:
        raise failures[0]


# ------------------------------------------------------------------ reach

TRIES = 2500  # each outcome has a chance of at least 1 in 96 per try: one is missed in 4 of 10^12 cases


@st.composite
def reach_cases(draw):
    """A small space in which every neighbour of a pipeline can be listed."""
    hps = lambda: {hp: ["range", [0, draw(st.integers(1, 4))]] for hp in ("a", "b")[: draw(st.integers(0, 2))]}
    n_t, n_p = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    ops = [["t", i, hps()] for i in range(n_t)] + [["p", i, hps()] for i in range(n_p)]
    space = {"task": draw(st.sampled_from(["clf", "reg"])), "shared": {}, "ops": draw(st.permutations(ops)), "param_check": False}
    kind = draw(st.sampled_from(["mutate", "mutate", "mate", "new"]))
    one = draw(kit.pipelines(space, min_pre=0 if kind == "mutate" else 1, max_pre=3))
    two = draw(kit.pipelines(space, min_pre=1, max_pre=3))
    longest = max(len(one), len(two)) if kind == "mate" else len(one)
    return {"space": space, "kind": kind, "one": one, "two": two, "seed": draw(gen.seeds), "pickle": draw(st.booleans()),
            "max_length": draw(st.sampled_from([None, longest, longest + 1]))}


def names_in(text):
    """Component names of a pipeline text in execution order."""
    return tuple(reversed(re.findall(r"(\w+)\(", text)))


def expected_outcomes(case):
    """(texts, [alternatives of names]) that have to come up among many tries."""
    space, kind, limit = case["space"], case["kind"], case["max_length"]
    names = [kit.op_class(space, k, i).__name__ for k, i, _ in space["ops"]]
    role = {n: k for n, (k, _, _) in zip(names, space["ops"])}
    ts, ps = [n for n in names if role[n] == "t"], [n for n in names if role[n] == "p"]
    allowed = kit.allowed_values(space)
    text = lambda pipeline: kit.pipeline_text(space, pipeline)
    texts, shapes = set(), set()
    if kind == "new":
        return texts, []
    if kind == "mutate":
        one = case["one"]
        seq = tuple(names[i] for i, _ in one)
        for at, (i, choice) in enumerate(one):
            for hp, k in choice.items():
                for other in range(len(allowed[names[i]][hp])):
                    if other != k:
                        texts.add(text(one[:at] + [[i, dict(choice, **{hp: other})]] + one[at + 1:]))
            for other in (ts if role[names[i]] == "t" else ps):
                if other != names[i]:
                    shapes.add(seq[:at] + (other,) + seq[at + 1:])
            if limit is None or len(one) < limit:
                shapes |= {seq[:at] + (t,) + seq[at:] for t in ts}
            if at:
                shapes.add(seq[at:])
        return texts, [{s} for s in shapes]
    one, two = case["one"], case["two"]
    alternatives = []
    for i in range(1, len(one)):
        for j in range(1, len(two)):
            children = [two[:j] + one[i:], one[:i] + two[j:]]
            alternatives.append({tuple(names[k] for k, _ in c) for c in children if limit is None or len(c) <= limit})
    return texts, alternatives


def check_reach(case, ctx):
    space = case["space"]
    seed_all(case["seed"])
    failures = []

    def program(operations, start_candidates):
        try:
            run(operations, start_candidates)
        except Exception as exc:
            failures.append(exc)
        return []

    def run(operations, start_candidates):
        make = lambda pipeline: kit.individual_of(space, pipeline, to_pipeline=start_candidates[0]._to_pipeline)
        parents = [make(case["one"]), make(case["two"])]
        if case["pickle"]:
            parents = [pickle.loads(pickle.dumps(p)) for p in parents]
        for p in parents:
            p.fitness = Fitness((0.5, -1.0), 0, 0, 0)
        if case["kind"] == "mutate":
            steps = search_steps(parents[0], 0)
            steps = steps[len(steps) - len(case["one"]):]
            if not has_neighbour(space, steps, case["max_length"]):
                return
            act = lambda: operations.mutate(parents[0])
        elif case["kind"] == "mate":
            act = lambda: operations.mate(*parents)
        else:
            act = operations.individual
        texts, alternatives = expected_outcomes(case)
        if case["kind"] == "new":
            limit = case["max_length"] or 3
            seen, lengths, values = set(), set(), set()
            for _ in range(TRIES):
                text = act().pipeline_str()
                found = names_in(text)
                lengths.add(len(found))
                seen |= set(found)
                values |= set(re.findall(r"\w+\.\w+=\d+", text))
            require(lengths == set(range(1, limit + 1)), "random pipelines do not have all lengths", sorted(lengths), limit)
            allowed = kit.allowed_values(space)
            usable = {n for n in allowed if limit > 1 or not kit.is_transformer_name(n)}
            require(seen == usable, "components never appear in random pipelines", sorted(usable - seen))
            wanted = {f"{n}.{hp}={v}" for n in usable for hp, vs in allowed[n].items() for v in vs}
            require(values == wanted, "values never appear in random pipelines", sorted(wanted - values))
        else:
            found = {act().pipeline_str() for _ in range(TRIES)}
            shapes = {names_in(t) for t in found}
            require(not (texts - found), "a possible change of a value never happens", [p.pipeline_str() for p in parents], sorted(texts - found))
            for group in alternatives:
                require(group & shapes or not group, "a possible result never comes up", case["kind"], [p.pipeline_str() for p in parents], sorted(group))
        ctx.nontrivial(case["kind"] == "new" or len(texts) + len(alternatives) > 1)
        ctx.label(case["kind"], *(["pickled"] if case["pickle"] else []))

    with kit.clean_gama():
        kit.operators_for(space, fn=program, gama_kwargs=dict(max_pipeline_length=case["max_length"]))
    if failures:
        raise failures[0]


FACETS = [
    Facet("reach", reach_cases, check_reach, quick=160, thorough=1500,
          rule=f"{TRIES} tries of an operator on one pipeline of a small space (or of random creation) against the listed outcomes; "
          "non-trivial: more than one outcome"),
    Facet("novelty", novel_cases, check_novel, quick=400, thorough=10000,
          rule="a learner with known neighbours, some of which were evaluated or failed; each try finds a new one with probability of at least 1/3 "
          "(so fifty tries miss it in 2 of 10^9 cases); non-trivial: something was evaluated"),
    Facet(
        "operators",
        cases,
        check,
        quick=1600,
        thorough=40000,
        rule="operation sequences (create, mutate, mate, offspring of a population) over random search spaces "
        "and length limits, run on the operator set of a real fit; non-trivial: at least one mutation or crossover",
    ),
]
