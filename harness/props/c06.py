"""C06: a pipeline's text form identifies it and reads back to the same pipeline."""
from hypothesis import strategies as st

from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Individual
from harness import gen, kit
from harness.core import Facet, require, seed_all
from harness.components import UNSET

ASSUMPTIONS = [
    "hyperparameter names and values contain no parenthesis, '=' or ', ' (stated in the parser)",
    "distinct callables offered as hyperparameter values have distinct names",
]


def steps_of(individual):
    return [
        (type(step), {k: v for k, v in step.get_params(deep=False).items() if not (isinstance(v, str) and v == UNSET)})
        for _, step in individual.pipeline.steps
    ]


def equal_steps(a, b):
    return len(a) == len(b) and all(
        ca is cb and set(pa) == set(pb) and all(type(pa[k]) == type(pb[k]) and pa[k] == pb[k] for k in pa)
        for (ca, pa), (cb, pb) in zip(a, b)
    )


@st.composite
def cases(draw):
    space = draw(kit.spaces())
    pipeline = draw(kit.pipelines(space))
    other = draw(st.one_of(kit.pipelines(space), st.just("near")))
    return {"space": space, "pipeline": pipeline, "other": other, "seed": draw(gen.seeds), "rot": draw(st.integers(0, 4)),
            "drop": draw(st.integers(0, 8))}


def neighbour(space, pipeline, seed):
    """The same pipeline with one value (or one step) changed, chosen by the seed."""
    allowed = kit.allowed_values(space)
    slots = [(i, hp) for i, (op, choice) in enumerate(pipeline) for hp in choice
             if len(allowed[kit.op_class(space, *space["ops"][op][:2]).__name__][hp]) > 1]
    out = [[op, dict(choice)] for op, choice in pipeline]
    if slots:
        i, hp = slots[seed % len(slots)]
        n = len(allowed[kit.op_class(space, *space["ops"][out[i][0]][:2]).__name__][hp])
        out[i][1][hp] = (out[i][1][hp] + 1 + seed % (n - 1)) % n
    elif len(out) > 1:
        out.pop(seed % (len(out) - 1))
    return out


def check(case, ctx):
    space = case["space"]
    seed_all(case["seed"])
    pset, _ = pset_from_config(kit.build_space(space))
    expected = kit.pipeline_steps(space, case["pipeline"])
    text = kit.pipeline_text(space, case["pipeline"])

    ind = Individual.from_string(text, pset, compile_individual)
    require(equal_steps(steps_of(ind), expected), "reading the text gives another pipeline", text, lambda: steps_of(ind))
    require(ind.pipeline_str() == text, "the text changes when read and written", text, ind.pipeline_str())
    n_terms = sum(len(p) for _, p in expected)
    ctx.nontrivial(len(expected) > 1 and n_terms > 0)
    ctx.label(f"length {len(expected)}", "hyperparameters" if n_terms else "no hyperparameters")
    require(len(ind.primitives) == len(expected), "wrong number of primitives")
    require(ind.short_name(">") == ">".join(c.__name__ for c, _ in expected), "wrong short name", ind.short_name(">"))

    # the order in which hyperparameters are written does not matter
    k = case["rot"]
    rotated = kit.pipeline_text(space, case["pipeline"], order=lambda t: t[k % max(1, len(t)):] + t[:k % max(1, len(t))])
    ind_r = Individual.from_string(rotated, pset, compile_individual)
    require(ind_r.pipeline_str() == text, "text depends on the order hyperparameters were given in", rotated, ind_r.pipeline_str())
    require(equal_steps(steps_of(ind_r), expected), "order of hyperparameters changes the pipeline", rotated)

    # copies are equal in content, distinct in identity
    copy_ = ind.copy_as_new()
    require(copy_.pipeline_str() == text and copy_ != ind and copy_.fitness is None, "bad copy", text)
    require(equal_steps(steps_of(copy_), expected), "copy compiles to another pipeline", text)

    # two pipelines have the same text exactly when they are the same pipeline
    other = neighbour(space, case["pipeline"], case["seed"]) if case["other"] == "near" else case["other"]
    other_steps = kit.pipeline_steps(space, other)
    ind2 = kit.individual_of(space, other, pset)
    require(equal_steps(steps_of(ind2), other_steps), "reading the text gives another pipeline", ind2.pipeline_str())
    require((ind2.pipeline_str() == text) == equal_steps(other_steps, expected), "text does not identify the pipeline",
            text, ind2.pipeline_str())
    if not equal_steps(other_steps, expected):
        ctx.label("distinct pair" + (" (near)" if case["other"] == "near" else ""))

    # a missing hyperparameter is an error when strict, and tolerated (left unset) otherwise
    slots = [(i, hp) for i, (_, p) in enumerate(expected) for hp in p]
    if slots:
        i, hp = slots[case["drop"] % len(slots)]
        cut = [[op, dict(choice)] for op, choice in case["pipeline"]]
        del cut[i][1][hp]
        cut_text = kit.pipeline_text(space, cut)
        ctx.label("strictness")
        try:
            Individual.from_string(cut_text, pset, compile_individual, strict=True)
        except ValueError:
            pass
        else:
            require(False, "a missing hyperparameter was accepted in strict mode", cut_text)
        loose = Individual.from_string(cut_text, pset, compile_individual, strict=False)
        want = [(c, {h: v for h, v in p.items() if (j, h) != (i, hp)}) for j, (c, p) in enumerate(expected)]
        require(equal_steps(steps_of(loose), want), "non-strict reading gives another pipeline", cut_text)


@st.composite
def unknown_cases(draw):
    space = draw(kit.spaces())
    return {"space": space, "pipeline": draw(kit.pipelines(space)), "how": draw(st.sampled_from(["component", "component case", "component before", "component cut", "value", "value", "value case", "value cut", "value more", "name", "name cut"])),
            "at": draw(st.integers(0, 8)), "strict": draw(st.booleans())}


def check_unknown(case, ctx):
    """Text with a component, hyperparameter or value the space does not have is refused, strict or not."""
    space, how = case["space"], case["how"]
    pset, _ = pset_from_config(kit.build_space(space))
    steps = kit.pipeline_steps(space, case["pipeline"])
    names = [c.__name__ for c, _ in steps]
    known = set(kit.allowed_values(space))
    i = case["at"] % len(steps)
    slots = [(j, hp) for j, (_, p) in enumerate(steps) for hp in p]
    if not how.startswith("component") and not slots:
        return
    j, target = slots[case["at"] % len(slots)] if slots else (0, None)

    text = "data"
    for n, (cls, params) in enumerate(steps):
        name = names[n]
        if how.startswith("component") and n == i:
            name = {"component": name + "X", "component case": name.swapcase(), "component before": "Other" + name,
                    "component cut": name[1:] if case["at"] % 2 else name[:-1]}[how]
            if name in known:
                return
        terms = []
        for hp, v in params.items():
            ident = hp if kit._is_shared(space, cls, hp) else f"{cls.__name__}.{hp}"
            value = kit.format_value(v)
            if n == j and hp == target and not how.startswith("component"):
                if how.startswith("name"):
                    ident = ident + "x" if how == "name" else ident[:-1]
                    if any(ident == (h if kit._is_shared(space, cls, h) else f"{cls.__name__}.{h}") for h in kit.allowed_values(space)[cls.__name__]):
                        return
                else:
                    value = {"value case": value.swapcase(), "value cut": value[:-1], "value more": value + "0",
                             "value": "'other'" if case["at"] % 2 else "977"}[how]
                    if value in [kit.format_value(w) for w in kit.allowed_values(space)[cls.__name__][hp]]:
                        return
            terms.append(f", {ident}={value}")
        text = f"{name}({text}{''.join(terms)})"
    ctx.nontrivial()
    ctx.label(how)
    try:
        ind = Individual.from_string(text, pset, compile_individual, strict=case["strict"])
    except Exception:
        return
    require(False, "text the search space has no pipeline for was accepted", text, lambda: ind.pipeline_str())


@st.composite
def random_cases(draw):
    return {"space": draw(kit.spaces()), "seed": draw(gen.seeds), "n": draw(st.integers(1, 4)), "length": draw(st.integers(1, 5))}


def check_random(case, ctx):
    """Every pipeline gama itself makes up can be read back from its text."""
    from gama.genetic_programming.operations import create_random_expression

    seed_all(case["seed"])
    pset, _ = pset_from_config(kit.build_space(case["space"]))
    n_t = sum(1 for k, _, _ in case["space"]["ops"] if k == "t")
    length = case["length"] if n_t else 1
    for _ in range(case["n"]):
        ind = Individual(create_random_expression(pset, min_length=length, max_length=length), compile_individual)
        text = ind.pipeline_str()
        again = Individual.from_string(text, pset, compile_individual)
        require(again.pipeline_str() == text, "text changes when read back", text, again.pipeline_str())
        require(equal_steps(steps_of(again), steps_of(ind)), "pipeline changes when read back", text)
        require(len(ind.primitives) == length, "wrong length", text)
        require(str(ind.main_node) == text, "two text forms of one pipeline", text)
        ctx.nontrivial(length > 1)
        ctx.label(f"length {length}")


@st.composite
def builtin_cases(draw):
    return {"space": draw(st.sampled_from(["clf", "reg", "test"])), "seed": draw(gen.seeds), "length": draw(st.integers(1, 5))}


_BUILTIN = {}


def builtin_pset(name):
    if name not in _BUILTIN:
        from gama.configuration.classification import clf_config
        from gama.configuration.regression import reg_config
        from gama.configuration.testconfiguration import clf_config as test_config

        _BUILTIN[name] = pset_from_config({"clf": clf_config, "reg": reg_config, "test": test_config}[name])[0]
    return _BUILTIN[name]


def check_builtin(case, ctx):
    from gama.genetic_programming.operations import create_random_expression

    seed_all(case["seed"])
    pset = builtin_pset(case["space"])
    ind = Individual(create_random_expression(pset, min_length=case["length"], max_length=case["length"]), compile_individual)
    text = ind.pipeline_str()
    again = Individual.from_string(text, pset, compile_individual)
    require(again.pipeline_str() == text, "text changes when read back", text, again.pipeline_str())
    a, b = ind.pipeline.steps, again.pipeline.steps
    require([type(s) for _, s in a] == [type(s) for _, s in b], "components change when read back", text)
    for (_, s1), (_, s2) in zip(a, b):
        p1, p2 = s1.get_params(), s2.get_params()
        require(set(p1) == set(p2) and all(repr(p1[k]) == repr(p2[k]) for k in p1), "hyperparameters change when read back", text)
    ctx.nontrivial(case["length"] > 1)


@st.composite
def history_cases(draw):
    space = draw(kit.spaces(min_t=1))
    return {"space": space, "seed": draw(gen.seeds), "start": [draw(kit.pipelines(space)) for _ in range(2)],
            "ops": draw(st.lists(st.sampled_from(["m0", "m1", "x", "r"]), min_size=1, max_size=12))}


def check_history(case, ctx):
    """However a pipeline came about, its text is the one text of its content."""
    from gama.genetic_programming.mutation import random_valid_mutation_in_place
    from gama.genetic_programming.crossover import random_crossover

    space = case["space"]
    seed_all(case["seed"])
    pset, _ = pset_from_config(kit.build_space(space))
    inds = [kit.individual_of(space, p, pset) for p in case["start"]]
    changed = 0
    for op in case["ops"]:
        if op in ("m0", "m1"):
            random_valid_mutation_in_place(inds[int(op[1])], pset)
            changed += 1
        elif op == "x":
            a, b = inds[0].copy_as_new(), inds[1].copy_as_new()
            try:
                a, b = random_crossover(a, b)
            except ValueError:
                continue
            inds = [a, b]
            changed += 1
        else:
            inds = [Individual.from_string(i.pipeline_str(), pset, compile_individual) for i in inds]
        for ind in inds:
            steps = steps_of(ind)
            want = text_of_steps(space, steps)
            require(ind.pipeline_str() == want, "text is not that of the pipeline", ind.pipeline_str(), want)
            again = Individual.from_string(want, pset, compile_individual)
            require(equal_steps(steps_of(again), steps), "pipeline changes when read back", want)
    ctx.nontrivial(changed > 1)
    ctx.label("crossover" if "x" in case["ops"] else "mutation only")


def text_of_steps(space, steps):
    text = "data"
    for cls, params in steps:
        terms = sorted(params.items(), key=lambda t: f"{t[0]}={kit.format_value(t[1])}")
        inner = "".join(
            f", {hp if kit._is_shared(space, cls, hp) else cls.__name__ + '.' + hp}={kit.format_value(v)}" for hp, v in terms)
        text = f"{cls.__name__}({text}{inner})"
    return text


FACETS = [
    Facet("history", history_cases, check_history, quick=1500, thorough=40000,
          rule="pipelines that went through mutations, crossovers and re-reading; non-trivial: at least two changes"),
    Facet("text", cases, check, quick=4000, thorough=120000,
          rule="pipelines of random search spaces, written by an independent formatter, pairs of near-identical "
          "pipelines included; non-trivial: more than one step and at least one hyperparameter"),
    Facet("unknown", unknown_cases, check_unknown, quick=1500, thorough=40000,
          rule="texts with one component, hyperparameter name or value that the space does not have; all that are built are non-trivial"),
    Facet("random", random_cases, check_random, quick=1500, thorough=30000, rule="pipelines drawn by gama; non-trivial: more than one step"),
    Facet("builtin", builtin_cases, check_builtin, quick=1500, thorough=40000, rule="pipelines drawn from the shipped search spaces; non-trivial: more than one step"),
]
