"""C12: every submitted job completes exactly once and no worker is left behind (real processes)."""
import os
import time

import numpy as np
import psutil
import stopit
from hypothesis import strategies as st

from gama.utilities.generic.async_evaluator import AsyncEvaluator
from harness.core import Facet, Violation, require

ASSUMPTIONS = [
    "functions, arguments, results and exceptions can be pickled; a job does not end its own process",
    "no memory limit is set (with one, gama ends workers on purpose and their jobs are lost)",
]


class Record:
    def __init__(self, error=None, value=None):
        self.error = error
        self.value = value


class OwnError(Exception):
    pass


RESULTS = {
    "none": lambda: None,
    "zero": lambda: 0,
    "false": lambda: False,
    "text": lambda: "text",
    "empty text": lambda: "",
    "list": lambda: [1, [2]],
    "empty tuple": lambda: (),
    "tuple": lambda: (1, 2),
    "array": lambda: np.arange(4),
    "empty array": lambda: np.arange(0),
    "one": lambda: np.array([0.0]),
    "record": lambda: Record(value=3),
    "record error": lambda: Record(error="ValueError", value=4),
    "record memory": lambda: Record(error=MemoryError("x"), value=5),
    "records": lambda: (Record(error=MemoryError("x")), 1),
    "records ok": lambda: (Record(value=1), 1),
    "large": lambda: "x" * 300_000,
    "class": lambda: Record,
    "nan": lambda: float("nan"),
}
ERRORS = {
    "ValueError": lambda: ValueError("one", 2),
    "MemoryError": lambda: MemoryError(),
    "OwnError": lambda: OwnError("é"),
    "KeyError": lambda: KeyError("k"),
    "Timeout": lambda: stopit.TimeoutException(),
    "StopIteration": lambda: StopIteration(3),
    "Empty": lambda: __import__("queue").Empty(),
    "OSError": lambda: OSError(5, "input/output"),
}


def job(serial, kind, sleep, log, *args, shared="none", other="unset", **kwargs):
    with open(log, "a") as fh:
        fh.write(f"{serial} {os.getpid()}\n")
    if sleep:
        time.sleep(sleep)
    if kind in ERRORS:
        raise ERRORS[kind]()
    if kind == "echo":
        return ("echo", serial, args, kwargs, shared, other)
    return RESULTS[kind]()


def describe(value):
    if isinstance(value, Record):
        error = value.error
        if isinstance(error, MemoryError):
            error = "MemoryError"
        return ("record", error, value.value)
    if isinstance(value, np.ndarray):
        return ("array", value.dtype.kind, value.tolist())
    if isinstance(value, tuple):
        return ("tuple",) + tuple(describe(v) for v in value)
    if isinstance(value, type):
        return ("class", value.__name__)
    return (type(value).__name__, repr(value))


@st.composite
def histories(draw):
    kinds = ["echo"] * 6 + list(RESULTS) + list(ERRORS)
    ops = []
    outstanding = 0
    for _ in range(draw(st.integers(1, 14))):
        op = draw(st.sampled_from(["submit", "submit", "wait"]))
        if op == "submit":
            ops.append(["submit", draw(st.sampled_from(kinds)), draw(st.sampled_from([0, 0, 0, 0.002, 0.02])), draw(st.booleans())])
            outstanding += 1
        elif outstanding or draw(st.integers(0, 3)) == 3:
            ops.append(["wait"])
            outstanding = max(0, outstanding - 1)
    return {"workers": draw(st.sampled_from([1, 1, 2, 3])), "ops": ops, "end": draw(st.sampled_from(["drain", "drain", "leave", "ValueError", "KeyboardInterrupt", "Timeout", "TimeoutError", "StopIteration", "SystemExit", "MemoryError", "EOFError", "OwnError", "busy", "busy error"])),
            "defaults": draw(st.booleans()), "poll": draw(st.sampled_from([0.001, 0.01])), "logfile": draw(st.booleans()), "patience": draw(st.sampled_from([0, 1]))}


BODY = {"ValueError": ValueError, "busy error": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "Timeout": stopit.TimeoutException,
        "TimeoutError": TimeoutError, "StopIteration": StopIteration, "SystemExit": SystemExit, "MemoryError": MemoryError, "EOFError": EOFError,
        "OwnError": OwnError}


def run_history(case, ctx):
    log = os.path.join(os.getcwd(), "jobs.txt")
    open(log, "w").close()
    AsyncEvaluator.defaults = {"shared": "everywhere", "other": 7} if case["defaults"] else {}
    evaluator = AsyncEvaluator(n_workers=case["workers"], logfile=os.path.join(os.getcwd(), "memory.log") if case["logfile"] else None,
                               wait_time_before_forced_shutdown=case["patience"])
    me = psutil.Process()
    submitted, outstanding, pids = [], {}, set()
    raised = None
    left_at = None

    def wait():
        future = evaluator.wait_next(poll_time=case["poll"])
        require(id(future) in outstanding, "a future was returned that is not outstanding", future.args)
        serial, kind, own = outstanding.pop(id(future))
        if kind in ERRORS:
            want = ERRORS[kind]()
            require(type(future.exception) is type(want) and future.exception.args == want.args and future.result is None,
                    "a job did not return the exception it raised", kind, future.exception, future.result)
            require(isinstance(future.traceback, str) and type(want).__name__ in future.traceback, "no traceback", future.traceback)
        else:
            require(future.exception is None, "a job that succeeded has an exception", future.exception, kind)
            if kind == "echo":
                shared = "mine" if own else ("everywhere" if case["defaults"] else "none")
                want = ("echo", serial, (serial, "a"), {"b": [serial]}, shared, 7 if case["defaults"] else "unset")
                require(future.result == want, "a job was executed with other arguments or another job's result", future.result, want)
            else:
                want = describe(RESULTS[kind]())
                require(describe(future.result) == want, "a job returned another result", describe(future.result), want)

    try:
        with evaluator as entered:
            require(entered is evaluator, "entering does not give the evaluator")
            try:
                evaluator.__enter__()
            except RuntimeError:
                pass
            else:
                require(False, "an evaluator was entered twice")
            for op in case["ops"]:
                if op[0] == "submit":
                    serial = len(submitted)
                    kwargs = {"b": [serial]}
                    if op[3]:
                        kwargs["shared"] = "mine"
                    future = evaluator.submit(job, serial, op[1], op[2], log, serial, "a", **kwargs)
                    submitted.append(future)
                    outstanding[id(future)] = (serial, op[1], op[3])
                elif outstanding:
                    wait()
                else:
                    try:
                        evaluator.wait_next(poll_time=case["poll"])
                    except RuntimeError:
                        ctx.label("wait without jobs")
                    else:
                        require(False, "waiting with nothing outstanding did not raise")
            end = case["end"]
            if end.startswith("busy"):
                # workers in the middle of long jobs
                for _ in range(case["workers"] + 1):
                    submitted.append(evaluator.submit(job, len(submitted), "echo", 60, log, len(submitted), "a", b=[len(submitted)]))
                time.sleep(0.05)
            elif end == "drain":
                while outstanding:
                    wait()
                try:
                    evaluator.wait_next(poll_time=case["poll"])
                except RuntimeError:
                    pass
                else:
                    require(False, "more futures were returned than jobs submitted")
            pids = {p.pid for p in me.children(recursive=True)}
            require(len(pids) >= 1, "no worker processes")
            left_at = time.time()
            if end in BODY:
                raise BODY[end]()
    except tuple(BODY.values()) as e:
        if isinstance(e, Violation):
            raise
        raised = e
    took = time.time() - left_at if left_at else 0
    want = BODY.get(case["end"])
    require((raised is None) if want is None else type(raised) is want, "leaving the context changed the exception", raised)
    alive = [p.pid for p in me.children(recursive=True)]
    require(not alive, "worker processes are left behind", alive)
    require(took < 15, "leaving took too long", took)
    lines = open(log).read().split("\n")[:-1]
    runs = [int(line.split()[0]) for line in lines]
    require(len(runs) == len(set(runs)), "a job was executed more than once", runs)
    require(all(int(line.split()[1]) != os.getpid() for line in lines), "a job ran in the main process")
    if case["end"] == "drain":
        require(sorted(runs) == list(range(len(submitted))), "a job was not executed", runs)
    try:
        evaluator.__enter__()
    except RuntimeError:
        pass
    else:
        require(False, "an evaluator was entered again after it was left")
    ctx.label(f"workers {case['workers']}", case["end"], f"jobs {min(len(submitted), 5)}")
    ctx.nontrivial(len(submitted) > 1)


def check_history(case, ctx):
    saved = AsyncEvaluator.defaults
    try:
        run_history(case, ctx)
    finally:
        AsyncEvaluator.defaults = saved
        for p in psutil.Process().children(recursive=True):
            try:
                p.kill()
                p.wait(timeout=5)
            except psutil.Error:
                pass


FACETS = [
    Facet("history", histories, check_history, 480, 6000, "at least two jobs were submitted", hang_s=75),
]
