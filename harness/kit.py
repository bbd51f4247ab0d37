"""Driving gama without its processes: search spaces, a synchronous evaluator, recorded searches."""
import contextlib
import logging
import os
import pickle
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from gama.search_methods.base_search import BaseSearch
from gama.utilities.generic import async_evaluator as ae_module
from gama.utilities.generic.async_evaluator import AsyncEvaluator, AsyncFuture

from harness import components as comp
from harness.core import seed_all

# ---------------------------------------------------------------- search spaces (as data)

VALUE_POOLS = [
    ["list", [0.1, 1.0, 10.0]],
    ["list", [True, False]],
    ["list", ["l1", "l2", "elastic net"]],
    ["list", [None, 3]],
    ["list", ["only"]],
    ["list", [1e-05]],
    ["range", [1, 6]],
    ["range", [2, 4]],
    ["arange", [0.05, 0.31, 0.05]],
    ["arange", [0.0, 1.01, 0.5]],
    ["fn", ["score_fn_one"]],
    ["fn", ["score_fn_one", "score_fn_two"]],
    ["list", [-1, 0, 1]],
    ["list", ["1", 1, 1.5]],
    ["list", ["a", "A", "b"]],
    ["list", [100, 10, 1]],
    ["list", [0.12341, 0.12342, 1e-05, 1.1e-05]],
]


def values_of(pool):
    """The hyperparameter values a pool stands for, as put in the configuration."""
    kind, args = pool
    if kind == "list":
        return list(args)
    if kind == "range":
        return range(*args)
    if kind == "arange":
        return np.arange(*args)
    return {comp.CALLABLES[name]: None for name in args}


pools = st.sampled_from(VALUE_POOLS)
shared_pools = st.sampled_from([p for p in VALUE_POOLS if p[0] in ("list", "range")])


@st.composite
def spaces(draw, task=None, min_t=0, max_t=6, min_p=1, max_p=4):
    """A search space as data: {'task', 'shared': {name: pool}, 'ops': [[kind, i, {hp: pool or None}]]}."""
    task = draw(st.sampled_from(["clf", "reg"])) if task is None else task
    shared = {}
    for name in ("shared1", "shared2"):
        if draw(st.booleans()):
            shared[name] = draw(shared_pools)

    def hps():
        out = {}
        for name in ("a", "b", "c", "param_d"):
            if draw(st.integers(0, 2 if name != "param_d" else 5)) == 0:
                out[name] = draw(pools)
        for name in shared:
            if draw(st.booleans()):
                out[name] = None  # refers to the shared definition
        return out

    n_t = draw(st.integers(min_t, min(max_t, len(comp.TRANSFORMERS))))
    n_p = draw(st.integers(min_p, min(max_p, 4)))
    ops = [["t", i, hps()] for i in draw(st.permutations(range(len(comp.TRANSFORMERS))))[:n_t]]
    ops += [["p", i, hps()] for i in draw(st.permutations(range(4)))[:n_p]]
    check = draw(st.integers(0, 5)) == 0
    return {"task": task, "shared": shared, "ops": draw(st.permutations(ops)), "param_check": check}


def op_class(space, kind, i):
    if kind == "t":
        return comp.TRANSFORMERS[i]
    return (comp.CLASSIFIERS if space["task"] == "clf" else comp.REGRESSORS)[i]


def always_valid(params):
    return True


def build_space(space):
    """The configuration dictionary a user would pass."""
    config = {}
    for name, pool in space["shared"].items():
        config[name] = values_of(pool)
    for kind, i, hps in space["ops"]:
        entry = {}
        for hp, pool in hps.items():
            entry[hp] = [] if pool is None else values_of(pool)
        if space["param_check"] and hps:
            entry["param_check"] = [always_valid]
        config[op_class(space, kind, i)] = entry
    return config


def allowed_values(space):
    """{class name: {hyperparameter: list of allowed values}} straight from the data."""
    out = {}
    for kind, i, hps in space["ops"]:
        out[op_class(space, kind, i).__name__] = {
            hp: list(values_of(space["shared"][hp] if pool is None else pool)) for hp, pool in hps.items()
        }
    return out


def is_transformer_name(name):
    return any(c.__name__ == name for c in comp.TRANSFORMERS)


def value_in(value, allowed):
    return any(type(value) == type(v) and value == v for v in allowed)


# ---------------------------------------------------------------- synchronous evaluation


class Scheduler:
    """Decides which outstanding job completes next; picks come from the case."""

    def __init__(self, picks):
        self.picks = list(picks)
        self.used = 0

    def choose(self, n):
        if not self.picks:
            return 0
        pick = self.picks[self.used % len(self.picks)]
        self.used += 1
        return pick % n


class Interrupt(Exception):
    pass


class SyncEvaluator:
    """Replaces AsyncEvaluator's processes for the duration of a `with` block.

    Jobs run in this process, one at a time, in the order the scheduler chooses; each job's result
    crosses a pickle boundary as it would between processes (`roundtrip`). Events are recorded:
    ('enter',), ('submit', future), ('done', future), ('exit',). `on_wait(k)` is called before the
    k-th completion (0-based) and may raise to inject an interruption.
    """

    def __init__(self, picks=(), roundtrip=True, on_wait=None, on_submit=None, n_workers=None, window=False):
        self.window = window  # only the first n_workers outstanding jobs are being executed
        self.scheduler = Scheduler(picks)
        self.roundtrip = roundtrip
        self.on_wait = on_wait
        self.on_submit = on_submit
        self.n_workers = n_workers
        self.submitted = []
        self.completed = []
        self.events = []
        self.instances = []

    def __enter__(self):
        cls = AsyncEvaluator
        self._saved = {k: cls.__dict__[k] for k in ("__init__", "__enter__", "__exit__", "submit", "wait_next")}
        self._defaults = cls.defaults
        outer = self

        def init(this, n_workers=1, memory_limit_mb=None, logfile=None, wait_time_before_forced_shutdown=10):
            workers = outer.n_workers or n_workers
            this.futures = {}
            this._pending = []
            this.job_queue_size = -workers
            this.n_workers = workers
            this.memory_limit_mb = memory_limit_mb
            this.logfile = logfile
            outer.instances.append(this)

        def enter(this):
            outer.events.append(("enter", this))
            return this

        def exit_(this, *args):
            outer.events.append(("exit", this))
            this._pending = []
            return False

        def submit(this, fn, *args, **kwargs):
            if outer.on_submit:
                outer.on_submit(len(outer.submitted))
            future = AsyncFuture(fn, *args, **kwargs)
            this.futures[future.id] = future
            this._pending.append(future)
            this.job_queue_size += 1
            outer.submitted.append(future)
            outer.events.append(("submit", future))
            return future

        def wait_next(this, poll_time=0.05):
            if not this._pending:
                raise RuntimeError("No Futures queued, must call `submit` first.")
            if outer.on_wait:
                outer.on_wait(len(outer.completed))
            running = min(len(this._pending), this.n_workers) if outer.window else len(this._pending)
            future = this._pending.pop(outer.scheduler.choose(running))
            this.futures.pop(future.id, None)
            tracing = sys.gettrace()
            sys.settrace(None)  # a job runs elsewhere: what interrupts the search does not reach it
            if outer.roundtrip:
                copy_ = pickle.loads(pickle.dumps(future))
                copy_.execute(AsyncEvaluator.defaults)
                copy_ = pickle.loads(pickle.dumps(copy_))
                future.result, future.exception, future.traceback = copy_.result, copy_.exception, copy_.traceback
            else:
                future.execute(AsyncEvaluator.defaults)
            sys.settrace(tracing)
            this.job_queue_size -= 1
            outer.completed.append(future)
            outer.events.append(("done", future))
            return future

        for name, fn in (("__init__", init), ("__enter__", enter), ("__exit__", exit_), ("submit", submit), ("wait_next", wait_next)):
            setattr(cls, name, fn)
        return self

    def __exit__(self, *args):
        for name, fn in self._saved.items():
            setattr(AsyncEvaluator, name, fn)
        AsyncEvaluator.defaults = self._defaults
        return False


@contextlib.contextmanager
def clean_gama():
    """Undo the process-wide effects of constructing Gama objects (log handlers, evaluator defaults)."""
    logger = logging.getLogger("gama")
    handlers = list(logger.handlers)
    init, defaults = AsyncEvaluator.__dict__["__init__"], AsyncEvaluator.defaults
    try:
        yield
    finally:
        for h in list(logger.handlers):
            if h not in handlers:
                logger.removeHandler(h)
                if isinstance(h, logging.FileHandler):
                    h.close()
        setattr(AsyncEvaluator, "__init__", init)
        AsyncEvaluator.defaults = defaults


class ProbeSearch(BaseSearch):
    """A user-defined search: hands the operator set and start candidates to a function."""

    def __init__(self, fn=None):
        super().__init__()
        self.fn = fn
        self.calls = []

    def dynamic_defaults(self, x, y, time_limit):
        self.calls.append(("dynamic_defaults", x, y, time_limit))

    def search(self, operations, start_candidates):
        self.calls.append(("search", operations, start_candidates))
        if self.fn is not None:
            self.output = self.fn(operations, start_candidates) or []


def numeric_xy(task, n=12, k=3, seed=0):
    rng = np.random.RandomState(seed)
    x = pd.DataFrame(np.round(rng.normal(size=(n, k)), 3), columns=[f"f{i}" for i in range(k)])
    y = pd.Series([i % 2 for i in range(n)] if task == "clf" else np.round(rng.normal(size=n), 3), name="target")
    return x, y


def make_gama(task, directory=None, **kwargs):
    from gama import GamaClassifier, GamaRegressor

    kwargs.setdefault("store", "nothing")
    kwargs.setdefault("n_jobs", 1)
    kwargs.setdefault("verbosity", logging.CRITICAL)
    kwargs.setdefault("output_directory", os.path.join(directory or os.getcwd(), f"out{len(os.listdir(directory or os.getcwd()))}"))
    return (GamaClassifier if task == "clf" else GamaRegressor)(**kwargs)


def operators_for(space, directory=None, fn=None, gama_kwargs=None):
    """Run `fn(operations, start_candidates)` inside the search phase of a real Gama.fit; returns gama."""
    from gama.postprocessing import NoPostProcessing

    kwargs = dict(gama_kwargs or {})
    task = space["task"]
    kwargs.setdefault("scoring", "accuracy" if task == "clf" else "neg_mean_squared_error")
    search = ProbeSearch(fn)
    gama = make_gama(task, directory, search_space=build_space(space), search=search,
                     post_processing=NoPostProcessing(), **kwargs)
    x, y = numeric_xy(task)
    gama.fit(x, y)
    return gama


# ---------------------------------------------------------------- pipelines (as data)


@st.composite
def pipelines(draw, space, min_pre=0, max_pre=4):
    """A pipeline of the space as data: [[op position, {hp: value position}], ...], execution order."""
    allowed = allowed_values(space)
    t = [i for i, (k, _, _) in enumerate(space["ops"]) if k == "t"]
    p = [i for i, (k, _, _) in enumerate(space["ops"]) if k == "p"]
    n_pre = draw(st.integers(min_pre, max_pre)) if t else 0
    chosen = [draw(st.sampled_from(t)) for _ in range(n_pre)] + [draw(st.sampled_from(p))]
    out = []
    for i in chosen:
        kind, j, hps = space["ops"][i]
        values = allowed[op_class(space, kind, j).__name__]
        out.append([i, {hp: draw(st.integers(0, len(values[hp]) - 1)) for hp in hps}])
    return out


def pipeline_steps(space, pipeline):
    """[(class, {hp: value})] in execution order."""
    allowed = allowed_values(space)
    out = []
    for i, choice in pipeline:
        cls = op_class(space, space["ops"][i][0], space["ops"][i][1])
        out.append((cls, {hp: allowed[cls.__name__][hp][k] for hp, k in choice.items()}))
    return out


def format_value(value):
    if isinstance(value, str):
        return f"'{value}'"
    if callable(value) and hasattr(value, "__name__"):
        return value.__name__
    return str(value)


def pipeline_text(space, pipeline, order=None):
    """The documented text of a pipeline: Learner(Step(data, Step.hp=value), Learner.hp=value, shared=value).

    `order` is a function that orders the (name, value) pairs of each step (default: by name=value).
    """
    text = "data"
    for cls, params in pipeline_steps(space, pipeline):
        terms = [(hp if hp in space["shared"] and space["ops"] and _is_shared(space, cls, hp) else f"{cls.__name__}.{hp}", hp, v) for hp, v in params.items()]
        terms = sorted(terms, key=lambda t: f"{t[1]}={format_value(t[2])}")
        if order is not None:
            terms = order(terms)
        inner = "".join(f", {ident}={format_value(v)}" for ident, _, v in terms)
        text = f"{cls.__name__}({text}{inner})"
    return text


def _is_shared(space, cls, hp):
    for kind, i, hps in space["ops"]:
        if op_class(space, kind, i) is cls:
            return hp in hps and hps[hp] is None
    return False


def individual_of(space, pipeline, pset=None, to_pipeline=None):
    from gama.configuration.parser import pset_from_config
    from gama.genetic_programming.components import Individual
    from gama.genetic_programming.compilers.scikitlearn import compile_individual

    if pset is None:
        pset, _ = pset_from_config(build_space(space))
    return Individual.from_string(pipeline_text(space, pipeline), pset, to_pipeline or compile_individual)


# ---------------------------------------------------------------- evaluating inside a search


def evaluate_all(operations, individuals, tolerate=False):
    """What a search method does with candidates: submit them, wait for each. Returns the evaluations."""
    out = []
    with AsyncEvaluator() as evaluator:
        for ind in individuals:
            evaluator.submit(operations.evaluate, ind)
            future = operations.wait_next(evaluator)
            if future.exception is not None and not tolerate:
                raise future.exception if isinstance(future.exception, Exception) else RuntimeError(str(future.exception))
            out.append(future.result)
    return out


def sklearn_space(task):
    """Small deterministic scikit-learn search space."""
    from sklearn.feature_selection import SelectPercentile, VarianceThreshold, f_classif, f_regression
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.naive_bayes import BernoulliNB, GaussianNB
    from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
    from sklearn.preprocessing import Binarizer, MinMaxScaler, Normalizer, PolynomialFeatures, RobustScaler, StandardScaler
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

    space = {
        "alpha": [0.001, 0.1, 1.0, 100.0],
        "min_samples_leaf": range(1, 6),
        StandardScaler: {"with_mean": [True, False]},
        MinMaxScaler: {},
        RobustScaler: {},
        Normalizer: {"norm": ["l1", "l2", "max"]},
        Binarizer: {"threshold": np.arange(0.0, 1.01, 0.25)},
        PolynomialFeatures: {"degree": [2], "include_bias": [False], "interaction_only": [False, True]},
        VarianceThreshold: {"threshold": [0.0]},
        SelectPercentile: {"percentile": range(20, 100, 10), "score_func": {(f_classif if task == "clf" else f_regression): None}},
    }
    if task == "clf":
        space.update({
            GaussianNB: {},
            BernoulliNB: {"alpha": [], "fit_prior": [True, False]},
            KNeighborsClassifier: {"n_neighbors": range(1, 4), "weights": ["uniform", "distance"], "p": [1, 2]},
            DecisionTreeClassifier: {"criterion": ["gini", "entropy"], "max_depth": range(1, 5), "min_samples_leaf": [], "random_state": [3]},
            LogisticRegression: {"C": [0.01, 1.0, 25.0], "dual": [False]},
        })
    else:
        space.update({
            Ridge: {"alpha": [], "fit_intercept": [True, False]},
            KNeighborsRegressor: {"n_neighbors": range(1, 4), "weights": ["uniform", "distance"], "p": [1, 2]},
            DecisionTreeRegressor: {"max_depth": range(1, 5), "min_samples_leaf": [], "random_state": [3]},
        })
    return space


# ---------------------------------------------------------------- scripted evaluations


class Script:
    """What evaluating the k-th executed job does: ['ok', score], ['error'] or ['raise']."""

    def __init__(self):
        self.set([["ok", 0]])

    def set(self, outcomes, by_pipeline=False, length=True):
        self.outcomes = outcomes
        self.executed = 0
        self.length = length
        self.kwargs = []
        self.log = []


SCRIPT = Script()
ERROR_TEXTS = ["<class 'ValueError'> scripted", "<class 'stopit.utils.TimeoutException'> ", "<class 'MemoryError'> ", "MemoryError", "<class 'KeyError'> 'scripted'"]


def scripted_evaluate(individual, **kwargs):
    """Stands in for evaluating a pipeline; what happens comes from SCRIPT."""
    import datetime

    from gama.genetic_programming.components import Fitness
    from gama.utilities.evaluation_library import Evaluation

    k = SCRIPT.executed
    SCRIPT.executed += 1
    outcome = SCRIPT.outcomes[k % len(SCRIPT.outcomes)]
    SCRIPT.kwargs.append({key: v for key, v in kwargs.items() if key != "evaluate_pipeline"})
    SCRIPT.log.append((str(individual._id), outcome))
    if outcome[0] == "raise":
        raise {"ValueError": ValueError, "MemoryError": MemoryError}[outcome[1] if len(outcome) > 1 else "ValueError"]("scripted")
    value = float(outcome[1]) if outcome[0] == "ok" else float("-inf")
    score = (value, -len(individual.primitives)) if SCRIPT.length else (value,)
    now = datetime.datetime.now()
    e = Evaluation(individual, None, score, None, start_time=now, duration=0.01,
                   error=None if outcome[0] == "ok" else ERROR_TEXTS[k % len(ERROR_TEXTS)], pid=os.getpid())
    individual.fitness = Fitness(score, now, 0.01, 0.01)
    return e


class Wrapped(BaseSearch):
    """Runs another search method on an operator set whose evaluation is scripted."""

    def __init__(self, inner, before=None):
        super().__init__()
        self.inner = inner
        self.before = before
        self.logger = inner.logger

    @property
    def output(self):
        return self.inner.output

    @output.setter
    def output(self, value):
        if hasattr(self, "inner"):
            self.inner.output = value

    def dynamic_defaults(self, x, y, time_limit):
        self.inner.dynamic_defaults(x, y, time_limit)

    def search(self, operations, start_candidates):
        operations.evaluate = scripted_evaluate
        if self.before is not None:
            self.before(operations, start_candidates)
        self.inner.search(operations, start_candidates)


outcomes = st.one_of(
    st.tuples(st.just("ok"), st.integers(-4, 4)).map(list),
    st.tuples(st.just("ok"), st.integers(-4, 4)).map(list),
    st.tuples(st.just("ok"), st.integers(-4, 4)).map(list),
    st.just(["error"]),
    st.just(["raise", "ValueError"]),
    st.just(["raise", "MemoryError"]),
)


class RecordingPostProcessing:
    """Made lazily: a post-processing that records what it is given and returns a marker as model."""

    def __new__(cls, time_fraction=0.1):
        from gama.postprocessing.base_post_processing import BasePostProcessing

        class _Recording(BasePostProcessing):
            def __init__(self):
                super().__init__(time_fraction)
                self.calls = []

            def dynamic_defaults(self, gama):
                self.calls.append(("dynamic_defaults", gama))

            def post_process(self, x, y, timeout, selection):
                self.calls.append(("post_process", x, y, timeout, selection))
                return "model"

        return _Recording()


# ---------------------------------------------------------------- simulated time


class Clock:
    def __init__(self, now=1_700_000_000.0):
        self.now = now

    def __call__(self):
        return self.now

    def advance(self, seconds):
        self.now += seconds


@contextlib.contextmanager
def simulated_clock():
    """gama's clocks (whichever function of `time` it reads) only move when told to."""
    import time
    import types

    clock = Clock()
    real = {name: getattr(time, name) for name in ("time", "monotonic", "perf_counter")}
    undo = []

    def put(owner, name, value):
        undo.append((owner, name, getattr(owner, name)))
        setattr(owner, name, value)

    def is_real(value):
        return any(value is f for f in real.values())

    def functions(owner):
        for value in list(vars(owner).values()):
            if isinstance(value, types.FunctionType):
                yield value
            elif isinstance(value, (classmethod, staticmethod)):
                yield value.__func__
            elif isinstance(value, type) and value.__module__ == getattr(owner, "__name__", None):
                yield from functions(value)

    for name in real:
        put(time, name, clock)
    for module_name, module in list(sys.modules.items()):
        if module_name != "gama" and not module_name.startswith("gama."):
            continue
        for name, value in list(vars(module).items()):
            if is_real(value):
                put(module, name, clock)
        for fn in functions(module):
            if fn.__defaults__ and any(is_real(d) for d in fn.__defaults__):
                put(fn, "__defaults__", tuple(clock if is_real(d) else d for d in fn.__defaults__))
    try:
        yield clock
    finally:
        for owner, name, value in reversed(undo):
            setattr(owner, name, value)
