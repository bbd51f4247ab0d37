"""C11: multi-objective selection honours dominance, ranks and elites."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from gama.genetic_programming.components import Fitness, Individual
from gama.genetic_programming.nsga2 import nsga2, nsga2_select
from gama.genetic_programming.selection import create_from_population, eliminate_from_pareto
from gama.utilities.generic.paretofront import ParetoFront
from harness import components as comp
from harness import kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["objective values are numbers or infinities (not nan), of the same count for all members",
               "crowding is compared exactly when the objective values within the cut front differ"]

inf = math.inf


class Item:
    """An item with values; equality by identity."""

    def __init__(self, values, name):
        self.values = tuple(values)
        self.name = name

    def __repr__(self):
        return f"{self.name}{self.values}"


def weakly_better(a, b):
    return all(x >= y for x, y in zip(a, b))


def dominates_all(a, b):
    return all(x > y for x, y in zip(a, b))


@st.composite
def items(draw, min_size=1, max_size=14, max_k=3):
    k = draw(st.integers(1, max_k))
    value = draw(st.sampled_from(["small", "floats", "inf"]))
    v = {"small": st.integers(-2, 3), "floats": st.floats(-10, 10, allow_nan=False).map(lambda f: round(f, 2)),
         "inf": st.one_of(st.integers(-2, 3).map(float), st.just(-inf), st.just(inf))}[value]
    n = draw(st.integers(min_size, max_size))
    return draw(st.lists(st.lists(v, min_size=k, max_size=k), min_size=n, max_size=n))


@st.composite
def front_cases(draw):
    return {"items": draw(items(0, 16)), "mode": draw(st.sampled_from(["tuples", "items", "start", "individuals"])), "clear": draw(st.integers(0, 20)),
            "bad": draw(st.booleans())}


def check_front(case, ctx):
    values = [tuple(v) for v in case["items"]]
    if case["mode"] == "tuples":
        objs, front = values, ParetoFront()
        get = lambda o: o
    else:
        objs = [Item(v, f"i{i}") for i, v in enumerate(values)]
        get = lambda o: o.values
        front = ParetoFront(get_values_fn=get) if case["mode"] != "start" else ParetoFront(objs[: len(objs) // 2], get)
    offered = []
    if case["mode"] == "start":
        offered = list(objs[: len(objs) // 2])
        check_members(front, offered, get, "after construction")
        objs = objs[len(objs) // 2:]
    for i, o in enumerate(objs):
        if i == case["clear"]:
            front.clear()
            offered = []
            require(len(front) == 0 and list(front) == [], "not empty after clear")
        before = list(front)
        entered = front.update(o)
        offered.append(o)
        expected = not any(weakly_better(get(b), get(o)) for b in before)
        require(bool(entered) == expected, "wrong report of whether an item entered", entered, before, get(o))
        require(any(m is o for m in front) == expected or (case["mode"] == "tuples" and not expected), "the item is not where the report says", list(front), get(o))
        check_members(front, offered, get, "after update")
        if not expected:
            require(list(front) == before, "a refused item changed the front", before, list(front))
    if len(front) and case["bad"]:
        wrong = get(front[0]) + (1,)
        try:
            front.update(wrong if case["mode"] == "tuples" else Item(wrong, "bad"))
        except (ValueError, TypeError):  # TypeError: items without length, in the error message
            pass
        else:
            require(False, "an item with another number of values was accepted", wrong)
        check_members(front, offered, get, "after a refused item")
    ctx.nontrivial(len(front) > 1 and len(offered) > len(front))
    ctx.label(case["mode"], f"front {min(len(front), 4)}")


def check_members(front, offered, get, when):
    members = [get(f) for f in front]
    require(len(members) == len(front), "length of the front", len(front))
    for i, a in enumerate(members):
        for j, b in enumerate(members):
            require(i == j or not weakly_better(a, b), f"dominated or equal items in the front {when}", members)
    for o in offered:
        require(any(weakly_better(m, get(o)) for m in members), f"an item is not covered by the front {when}", get(o), members)
    for f in front:
        require(any(f is o or f == o for o in offered), f"an item that was not offered {when}", f)


# ---------------------------------------------------------------- NSGA-II


def fronts_of(values):
    left = set(range(len(values)))
    rank, r = {}, 1
    while left:
        current = [i for i in left if not any(dominates_all(values[j], values[i]) for j in left)]
        for i in current:
            rank[i] = r
        left -= set(current)
        r += 1
    return rank


def crowding(values):
    """{position: distance}; None when ties make it depend on the order."""
    k = len(values[0])
    d = {i: 0.0 for i in range(len(values))}
    for m in range(k):
        col = [v[m] for v in values]
        if len(set(col)) < len(col) or any(math.isinf(c) for c in col):
            return None
        order = sorted(range(len(values)), key=lambda i: col[i])
        d[order[0]] = d[order[-1]] = inf
        for a, b, c in zip(order, order[1:], order[2:]):
            d[b] += (col[c] - col[a]) / (col[order[-1]] - col[order[0]])
    return d


@st.composite
def nsga_cases(draw):
    its = draw(st.one_of(items(1, 14), distinct_items()))
    return {"items": its, "n": draw(st.integers(1, len(its)))}


@st.composite
def distinct_items(draw):
    """Every objective value occurs once; mostly trade-offs."""
    n = draw(st.integers(3, 12))
    k = draw(st.integers(2, 3))
    cols = [draw(st.permutations([round(1.5 * i + (i * i) / 7, 3) for i in range(n)])) for _ in range(k)]
    if draw(st.booleans()):  # a long first front
        cols[0] = sorted(cols[0])
        cols[1] = sorted(cols[1], reverse=True)
    return [list(v) for v in zip(*cols)]


def check_nsga(case, ctx):
    seed_all(3)
    values = [tuple(v) for v in case["items"]]
    objs = [Item(v, i) for i, v in enumerate(values)]
    metrics = [lambda o, m=m: o.values[m] for m in range(len(values[0]))]
    n = case["n"]
    picked = nsga2(list(objs), n, metrics)
    require(len(picked) == n and len({id(p) for p in picked}) == n and all(any(p is o for o in objs) for p in picked),
            "not n distinct members", len(picked), n)
    rank = fronts_of(values)
    chosen = {p.name for p in picked}
    out = set(range(len(values))) - chosen
    worst_in = max(rank[i] for i in chosen)
    require(all(rank[o] >= worst_in for o in out), "a member of a worse front was preferred",
            {i: rank[i] for i in chosen}, {o: rank[o] for o in out})
    cut = [i for i in range(len(values)) if rank[i] == worst_in]
    if out & set(cut):
        d = crowding([values[i] for i in cut])
        if d is not None:
            dist = {i: d[pos] for pos, i in enumerate(cut)}
            lowest = min(dist[i] for i in chosen if i in dist)
            require(all(dist[o] <= lowest + 1e-12 for o in out if o in dist), "a more crowded member was preferred",
                    {i: dist[i] for i in chosen if i in dist}, {o: dist[o] for o in out if o in dist})
            ctx.label("cut by crowding")
            ctx.nontrivial()
    metas = nsga2(list(objs), len(objs), metrics, return_meta=True)
    require(len(metas) == len(objs) and {id(m.obj) for m in metas} == {id(o) for o in objs}, "selecting all is not all")
    for m in metas:
        require(m.rank == rank[m.obj.name], "rank is not the number of the front", m.rank, rank[m.obj.name], m.obj)
    seq = [rank[m.obj.name] for m in metas]
    require(seq == sorted(seq), "fronts out of order", seq)
    for bad in (0, len(objs) + 1):
        try:
            nsga2(list(objs), bad, metrics)
        except ValueError:
            pass
        else:
            require(False, "an impossible number of members was accepted", bad)
    ctx.nontrivial(max(rank.values()) > 1)
    ctx.label(f"fronts {min(4, max(rank.values()))}")


@st.composite
def pair_cases(draw):
    return {"items": draw(st.one_of(items(3, 7), distinct_items(), chains())), "n": 60, "seed": draw(st.integers(0, 10**6))}


@st.composite
def chains(draw):
    """A strict order: every member is better than the next in every objective."""
    n = draw(st.integers(3, 6))
    k = draw(st.integers(1, 2))
    return draw(st.permutations([[float(-i)] * k for i in range(n)]))


def check_pairs(case, ctx):
    seed_all(case["seed"])
    values = [tuple(v) for v in case["items"]]
    objs = [Item(v, i) for i, v in enumerate(values)]
    metrics = [lambda o, m=m: o.values[m] for m in range(len(values[0]))]
    pairs = nsga2_select(list(objs), case["n"], metrics)
    require(len(pairs) == case["n"], "not n pairs", len(pairs))
    for a, b in pairs:
        require(any(a is o for o in objs) and any(b is o for o in objs), "a parent from outside the population")
        require(a is not b, "a member is paired with itself", a)
    rank = fronts_of(values)
    worst = max(rank.values())
    if sum(1 for r in rank.values() if r == worst) == 1:
        last = [i for i in rank if rank[i] == worst][0]
        require(all(last not in (a.name, b.name) for a, b in pairs), "the single worst member won a comparison", values, values[last])
        ctx.label("single worst")
        ctx.nontrivial()
    if len(set(rank.values())) == len(values) and len(values) <= 6:  # a strict order
        best = [i for i in rank if rank[i] == 1][0]
        first = sum(1 for a, b in pairs if a.name == best)
        second = sum(1 for a, b in pairs if best in (a.name, b.name))
        require(first >= 2 and second >= 8, "the best member is hardly selected", first, second, case["n"])
        if len(values) == 3:
            middle = [i for i in rank if rank[i] == 2][0]
            require(all({a.name, b.name} == {best, middle} for a, b in pairs), "of three ordered members the two best are the parents")
        ctx.label("strict order")
    ctx.label("few" if len(values) < 5 else "many")


# ---------------------------------------------------------------- parents of offspring

SPACE = {"task": "clf", "shared": {}, "ops": [["t", 0, {}], ["p", 0, {"a": ["range", [0, 9]]}]], "param_check": False}


@st.composite
def parent_cases(draw):
    n = draw(st.integers(3, 6))
    k = draw(st.integers(1, 4))
    order = draw(st.permutations([[float(-i)] * k for i in range(n)]))
    turn = draw(st.integers(0, k - 1)) if k > 1 and draw(st.booleans()) else None
    if turn is not None:  # the other way round in one objective: all in one front
        order = [[-v if j == turn else v for j, v in enumerate(values)] for values in order]
    return {"items": order, "turn": turn, "cx": draw(st.sampled_from([0.0, 0.2, 1.0])), "n": 150, "seed": draw(st.integers(0, 10**6)), "long": draw(st.booleans())}


def check_parents(case, ctx):
    """The parents of offspring are chosen by all objectives of the population."""
    seed_all(case["seed"])
    pop = []
    for i, values in enumerate(case["items"]):
        steps = ([[0, {}]] if case["long"] else []) + [[1, {"a": i}]]
        ind = kit.individual_of(SPACE, steps)
        ind.fitness = Fitness(tuple(values), 0, 0, 0)
        pop.append(ind)
    calls = []

    class Shell:
        def mate(self, a, b, *args, **kwargs):
            calls.append((a, b))
            return Individual(a.main_node.copy(), None)

        def mutate(self, a, *args, **kwargs):
            calls.append((a,))
            return Individual(a.main_node.copy(), None)

    made = create_from_population(Shell(), list(pop), case["n"], cxpb=case["cx"], mutpb=1 - case["cx"])
    require(len(made) == case["n"] == len(calls), "not as many offspring as asked for", len(made), len(calls))
    index = {id(p): i for i, p in enumerate(pop)}
    require(all(id(p) in index for c in calls for p in c), "a parent from outside the population")
    require(all(c[0] is not c[-1] for c in calls if len(c) == 2), "a pipeline is mated with itself")
    require(case["cx"] > 0 or all(len(c) == 1 for c in calls), "crossover although its probability is zero")
    require(case["cx"] < 1 or all(len(c) == 2 for c in calls), "mutation although crossover is certain and possible")
    firsts = {index[id(c[0])] for c in calls}
    if case["turn"] is None:
        by_rank = sorted(range(len(pop)), key=lambda i: case["items"][i], reverse=True)
        require(by_rank[-1] not in {index[id(p)] for c in calls for p in c}, "the single worst member became a parent", case["items"])
        require(by_rank[0] in firsts, "the best member never became a parent", case["items"])
        ctx.label("strict order")
    else:
        other = [j for j in range(len(case["items"][0])) if j != case["turn"]][0]
        ends = {min(range(len(pop)), key=lambda i: case["items"][i][other]), max(range(len(pop)), key=lambda i: case["items"][i][other])}
        require(ends <= firsts, "the best member of an objective never became a parent", case["items"], sorted(firsts))
        ctx.label("one front")
    ctx.nontrivial(len(case["items"][0]) > 1)
    ctx.label(f"k{len(case['items'][0])}")


# ---------------------------------------------------------------- elimination


@st.composite
def elim_cases(draw):
    return {"items": draw(items(1, 10)), "seeds": draw(st.lists(st.integers(0, 10**6), min_size=3, max_size=3))}


def check_eliminate(case, ctx):
    class Node:
        pass

    pop = []
    for v in case["items"]:
        ind = Individual(Node(), None)
        ind.fitness = Fitness(tuple(v), 0, 0, 0)
        pop.append(ind)
    before = list(pop)
    for s in case["seeds"]:
        seed_all(s)
        removed = eliminate_from_pareto(pop, 1)
        require(len(removed) == 1 and any(removed[0] is p for p in pop), "elimination did not name one member")
        v = removed[0].fitness.values
        for p in pop:
            w = p.fitness.values
            require(p is removed[0] or not (weakly_better(v, w) and v != w), "the eliminated individual is better than another in all objectives", v, w)
        require(pop == before, "elimination changed the population")
    ctx.nontrivial(len({tuple(v) for v in case["items"]}) > 2)
    ctx.label(f"k{len(case['items'][0])}")


FACETS = [
    Facet("front", front_cases, check_front, 3000, 80000, "the front holds several items and refused or dropped some"),
    Facet("nsga2", nsga_cases, check_nsga, 2400, 60000, "several fronts, or a front cut by crowding"),
    Facet("pairs", pair_cases, check_pairs, 1600, 30000, "one member is worse than all others"),
    Facet("parents", parent_cases, check_parents, 400, 10000, "more than one objective"),
    Facet("eliminate", elim_cases, check_eliminate, 1600, 40000, "at least three different fitness values"),
]
