"""C04: a search space is read completely, enforced, and never altered."""
import copy

import numpy as np
from hypothesis import strategies as st

from gama.configuration.parser import merge_configurations, pset_from_config
from harness import components as comp
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["hyperparameter values of one hyperparameter are distinct", "a shared hyperparameter that is referred to is defined"]


def freeze(config):
    """Comparable deep snapshot of a configuration dictionary (order included)."""

    def value(v):
        if isinstance(v, dict):
            return ("dict", [(k, value(x)) for k, x in v.items()])
        if isinstance(v, np.ndarray):
            return ("array", v.tolist())
        if isinstance(v, range):
            return ("range", v.start, v.stop, v.step)
        if isinstance(v, list):
            return ("list", list(v), [type(x) for x in v])
        return ("other", v)

    return [(k, value(v)) for k, v in config.items()]


# ------------------------------------------------------------------ reading

TWINS = [["list", [1, True, 1.0]], ["list", [0, False]], ["list", [[1, 2], [3]]], ["list", [{"a": 1}, None]]]


LONG = st.one_of(st.integers(8, 120).map(lambda n: ["range", [0, n]]),
                 st.integers(8, 120).map(lambda n: ["list", [v / 8 for v in range(n)]]),
                 st.integers(8, 60).map(lambda n: ["list", [f"v{v}" for v in range(n)]]))


@st.composite
def read_cases(draw):
    """Also values that are equal but not the same (max_features 1 and 1.0), and values that are lists or dictionaries."""
    space = draw(kit.spaces())
    for _, _, hps in space["ops"]:
        for hp in hps:
            if hps[hp] is not None and draw(st.integers(0, 9)) == 0:
                hps[hp] = draw(st.sampled_from(TWINS))
            elif hps[hp] is not None and draw(st.integers(0, 9)) == 0:
                hps[hp] = draw(LONG)
    for name in space["shared"]:
        if draw(st.integers(0, 5)) == 0:
            space["shared"][name] = draw(LONG)
    return space


def check_read(case, ctx):
    config = kit.build_space(case)
    before = freeze(config)
    pset, checks = pset_from_config(config)
    require(freeze(config) == before, "reading a search space changed it")
    allowed = kit.allowed_values(case)

    by_role = {"data": [], "prediction": []}
    for role in by_role:
        for primitive in pset[role]:
            by_role[role].append(primitive)
    names = lambda role: sorted(str(p) for p in by_role[role])
    want_t = sorted(kit.op_class(case, k, i).__name__ for k, i, _ in case["ops"] if k == "t")
    want_p = sorted(kit.op_class(case, k, i).__name__ for k, i, _ in case["ops"] if k == "p")
    require(names("data") == want_t, "preprocessing components are not those of the space", names("data"), want_t)
    require(names("prediction") == want_p, "learners are not those of the space", names("prediction"), want_p)

    for role, output in (("data", "data"), ("prediction", "prediction")):
        for primitive in by_role[role]:
            cls = primitive.identifier
            require(primitive.output == output, "wrong output type", primitive)
            hps = next(h for k, i, h in case["ops"] if kit.op_class(case, k, i) is cls)
            require(len(primitive.input) == len(hps), "wrong number of inputs", primitive.input, hps)
            seen = {}
            for type_ in primitive.input:
                terminals = pset[type_]
                require(len(terminals) > 0, "input without any value", type_)
                outs = {t.output for t in terminals}
                require(len(outs) == 1, "values of several hyperparameters mixed", type_)
                require(all(t.identifier == type_ for t in terminals), "value with another identifier", type_)
                seen[outs.pop()] = [t.value for t in terminals]
            require(set(seen) == set(hps), "hyperparameters are not those of the space", cls.__name__, sorted(seen))
            for hp, values in seen.items():
                want = allowed[cls.__name__][hp]
                ok = len(values) == len(want) and all(kit.value_in(v, want) for v in values) and all(
                    kit.value_in(v, values) for v in want)
                require(ok, "values are not those of the space", cls.__name__, hp, values, want)
                if hps[hp] is None:
                    ctx.label("shared hyperparameter")
    for kind, i, hps in case["ops"]:
        cls = kit.op_class(case, kind, i)
        if case["param_check"] and hps:
            require(checks.get(cls.__name__) is kit.always_valid, "parameter check lost", cls.__name__)
        else:
            require(cls.__name__ not in checks, "parameter check out of nowhere", cls.__name__)
    ctx.nontrivial(len(case["ops"]) > 1 and any(h for _, _, h in case["ops"]))
    ctx.label(f"task {case['task']}")


# ------------------------------------------------------------------ rejecting

class NotAnEstimator:
    pass


@st.composite
def bad_cases(draw):
    return {"space": draw(kit.spaces()), "bad": draw(st.sampled_from(["class", "int", "none", "tuple"]))}


def check_bad(case, ctx):
    config = kit.build_space(case["space"])
    config[{"class": NotAnEstimator, "int": 3, "none": None, "tuple": ("a",)}[case["bad"]]] = {}
    ctx.nontrivial()
    try:
        pset_from_config(config)
    except TypeError:
        return
    require(False, "a key that is neither a hyperparameter nor an estimator was accepted", case["bad"])


# ------------------------------------------------------------------ merging

@st.composite
def merge_cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    one, two = draw(kit.spaces(task)), draw(kit.spaces(draw(st.sampled_from([task, "clf", "reg"]))))
    if draw(st.integers(0, 2)):  # mostly: the same kind of collection for what both spaces define
        for kind, i, hps in two["ops"]:
            other = next((h for k, j, h in one["ops"] if (k, j) == (kind, i)), {})
            for hp in sorted(set(hps) & set(other)):
                if (hps[hp] is None) != (other[hp] is None):
                    hps[hp] = other[hp] if hp not in two["shared"] else hps[hp]
                elif hps[hp] is not None and hps[hp][0] != other[hp][0]:
                    hps[hp] = draw(st.sampled_from([p for p in kit.VALUE_POOLS if p[0] == other[hp][0]]))
    return {"one": one, "two": two, "again": draw(st.booleans())}


def keyset(values):
    # values that are equal (1 and 1.0 and True) count as the same value of a merged hyperparameter
    return set(values)


def mergeable(one, two):
    """The documented rule: values of one hyperparameter merge when they are the same kind of collection."""
    c1, c2 = kit.build_space(one), kit.build_space(two)
    for key in set(c1) & set(c2):
        if isinstance(key, str):
            if type(c1[key]) != type(c2[key]) or not isinstance(c1[key], list):
                return False
        else:
            for hp in set(c1[key]) & set(c2[key]):
                if type(c1[key][hp]) != type(c2[key][hp]):
                    return False
                if bool(len(c1[key][hp])) != bool(len(c2[key][hp])):
                    return False  # shared in one, own values in the other
    return True


def check_merge(case, ctx):
    one, two = case["one"], case["two"]
    if not mergeable(one, two):
        ctx.label("not mergeable")
        return
    c1, c2 = kit.build_space(one), kit.build_space(two)
    b1, b2 = freeze(c1), freeze(c2)
    merged = merge_configurations(c1, c2)
    require(freeze(c1) == b1, "merging changed its first argument")
    require(freeze(c2) == b2, "merging changed its second argument")
    require(set(merged) == set(c1) | set(c2), "merged components are not the union", list(merged))
    overlap = False
    for key in merged:
        sources = [c[key] for c in (c1, c2) if key in c]
        if isinstance(key, str):
            want = set().union(*[keyset(s) for s in sources])
            require(keyset(merged[key]) == want, "shared hyperparameter lost or gained values", key, list(merged[key]), want)
            continue
        require(set(merged[key]) == set().union(*[set(s) for s in sources]), "merged hyperparameters are not the union", key)
        for hp in merged[key]:
            parts = [s[hp] for s in sources if hp in s]
            overlap = overlap or len(parts) == 2
            want = set().union(*[keyset(p) for p in parts]) if hp != "param_check" else None
            if want is not None:
                require(keyset(merged[key][hp]) == want, "merged hyperparameter lost or gained values", key, hp, list(merged[key][hp]))
    ctx.nontrivial(overlap)
    ctx.label("overlap" if overlap else "no overlapping hyperparameter")
    if case["again"]:
        merged2 = merge_configurations(kit.build_space(one), kit.build_space(two))
        require(set(merged2) == set(merged), "merging is not repeatable")
    # the result is itself a search space
    pset_from_config({k: v for k, v in merged.items()})


# ------------------------------------------------------------------ probability metrics

@st.composite
def proba_cases(draw):
    from sklearn.linear_model import LogisticRegression  # noqa: F401
    return {"with": draw(st.lists(st.sampled_from(["GaussianNB", "LogisticRegression", "DecisionTreeClassifier"]), min_size=1, max_size=3, unique=True)),
            "without": draw(st.lists(st.sampled_from(["LinearSVC", "RidgeClassifier", "Perceptron", "SVC", "SGDClassifier"]), max_size=3, unique=True)),
            "pre": draw(st.booleans()),
            "scoring": draw(st.sampled_from(["accuracy", "neg_log_loss", "roc_auc", ["accuracy", "neg_log_loss"], "f1_macro", "average_precision"])),
            "seed": draw(gen.seeds)}


def check_proba(case, ctx):
    """Learners without probabilities are left out exactly when the metric needs probabilities."""
    from sklearn.linear_model import LogisticRegression, Perceptron, RidgeClassifier, SGDClassifier
    from sklearn.naive_bayes import GaussianNB
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVC, LinearSVC
    from sklearn.tree import DecisionTreeClassifier
    from gama.postprocessing import NoPostProcessing

    classes = {c.__name__: c for c in (LogisticRegression, Perceptron, RidgeClassifier, GaussianNB, LinearSVC, SVC, SGDClassifier, DecisionTreeClassifier)}
    config = {classes[n]: {} for n in case["with"] + case["without"]}
    if case["pre"]:
        config[StandardScaler] = {}
    before = freeze(config)
    seen = set()

    def program(operations, start_candidates):
        for ind in start_candidates + [operations.individual() for _ in range(150)]:
            seen.add(type(ind.pipeline.steps[-1][1]).__name__)
            for _, step in ind.pipeline.steps:
                seen.add(type(step).__name__)
        return []

    scoring = tuple(case["scoring"]) if isinstance(case["scoring"], list) else case["scoring"]
    needs = any(s in ("neg_log_loss", "roc_auc") for s in ([case["scoring"]] if isinstance(case["scoring"], str) else case["scoring"]))
    if case["scoring"] == "average_precision":
        needs = None  # threshold metric: both readings are acceptable
    seed_all(case["seed"])
    with kit.clean_gama():
        g = kit.make_gama("clf", search_space=config, scoring=scoring, search=kit.ProbeSearch(program), post_processing=NoPostProcessing())
        x, y = kit.numeric_xy("clf")
        g.fit(x, y)
    require(freeze(config) == before, "the user's search space was changed")
    learners = seen & set(classes)
    require(learners <= set(case["with"] + case["without"]), "learner outside of the space", learners)
    require(set(case["with"]) <= learners, "a learner of the space is never drawn", case["with"], learners)
    if needs is True:
        require(not (learners & set(case["without"])), "a learner without probabilities is searched", learners)
    elif needs is False:
        require(set(case["without"]) <= learners, "a learner of the space is never drawn", learners)
    require(("StandardScaler" in seen) == case["pre"], "preprocessing of the space lost or added")
    ctx.nontrivial(bool(case["without"]))
    ctx.label(f"needs probabilities: {needs}")


FACETS = [
    Facet("read", read_cases, check_read, quick=2500, thorough=60000,
          rule="random search spaces (lists, ranges, arrays, callables, shared hyperparameters); non-trivial: at least two components and a hyperparameter"),
    Facet("reject", bad_cases, check_bad, quick=200, thorough=2000, rule="a space with a key that is no component; all non-trivial"),
    Facet("merge", merge_cases, check_merge, quick=2500, thorough=60000,
          rule="pairs of random spaces; non-trivial: both define the same hyperparameter of the same component"),
    Facet("probabilities", proba_cases, check_proba, quick=240, thorough=4000,
          rule="classifier spaces with and without probability support; non-trivial: some learner lacks probabilities"),
]
