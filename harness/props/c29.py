"""C29: the memory limit ends the worker that uses the most, and only then (real processes, simulated memory usage)."""
import collections
import datetime
import os
import time

import psutil
from hypothesis import strategies as st

from gama.utilities.generic.async_evaluator import AsyncEvaluator
from harness.core import Facet, Violation, require

ASSUMPTIONS = [
    "the memory usage of a process is what psutil reports (replaced here by a table: a job declares its usage in a file)",
    "a worker is ended while it executes a job (ending it while it exchanges data with the main process may damage the queues, as gama notes)",
    "the job of a worker that is ended is lost: it is never returned (as gama notes)",
]

MAIN, BASE = 300, 10  # megabytes of the main process and of a worker
Memory = collections.namedtuple("Memory", "rss vms")


def job(serial, kind, size, folder):
    """Declares `size` megabytes on top of a worker's own, for as long as it runs."""
    with open(os.path.join(folder, "runs.txt"), "a") as fh:
        fh.write(f"{serial} {os.getpid()}\n")
    if kind == "quick":
        return ("done", serial)
    if kind == "pause":
        time.sleep(0.1)
        return ("done", serial)
    mark = os.path.join(folder, str(os.getpid()))
    time.sleep(0.25)  # the result of an earlier job is on its way by then
    with open(mark + ".new", "w") as fh:
        fh.write(f"{serial} {size}")
    os.rename(mark + ".new", mark)
    if kind == "allowed":
        time.sleep(0.15)
    elif kind == "hog":
        time.sleep(60)
    else:  # one of two that are too much together: goes on when the other is gone
        for _ in range(3000):
            if os.path.exists(os.path.join(folder, "release")):
                break
            time.sleep(0.01)
    os.remove(mark)
    return ("done", serial)


@st.composite
def histories(draw):
    workers = draw(st.sampled_from([1, 2, 2, 3, 4]))
    start = draw(st.sampled_from(["exact", "none"] + (["pair", "pair"] if workers > 1 else [])))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("quick"), st.sampled_from([1, 2, 5, 18, 19, 20, 21, 40])),
        st.tuples(st.just("allowed"), st.integers(0, 60)),
        st.tuples(st.just("hog"), st.integers(0, 60)),
    ), min_size=1, max_size=5))
    if draw(st.integers(0, 2)) == 0:  # the share of jobs that exceed the limit is counted anew after the pool shrank
        workers, start, ops = draw(st.integers(3, 4)), "none", []
        for _ in range(draw(st.integers(1, 3))):
            ops += [("quick", draw(st.sampled_from([3, 10, 14, 18, 19, 20, 30]))), ("hog", draw(st.integers(0, 60))), ("settle", 0)]
    return {"workers": workers, "start": start, "ops": ops, "logfile": draw(st.booleans()), "limit": draw(st.sampled_from([True, True, True, True, False])),
            "spread": draw(st.integers(0, 40))}


def run_history(case, ctx, folder):
    workers = case["workers"]
    limit = MAIN + workers * (BASE + 60) + 50 if case["limit"] else None
    logfile = os.path.join(folder, "memory.log") if case["logfile"] else None
    me = os.getpid()
    open(os.path.join(folder, "runs.txt"), "w").close()
    latest, sweeps, ended, problems = {}, [], [], []
    state = {"leaving": False}

    def usage(pid):
        if pid == me:
            return None, MAIN
        try:
            serial, size = open(os.path.join(folder, str(pid))).read().split()
        except OSError:
            return None, BASE
        return int(serial), BASE + int(size)

    original = {name: getattr(psutil.Process, name) for name in ("memory_info", "terminate", "kill")}

    def memory_info(process):
        original["memory_info"](process)  # raises if the process is gone
        _, value = usage(process.pid)
        latest[process.pid] = value  # what is known, whatever the order in which it is asked for
        sweeps.append(dict(latest))
        return Memory(int(value * 2**20), int(value * 2**20))

    def ending(name):
        def end(process):
            if process.pid == me or process.ppid() != me:
                problems.append("a process that is no worker was to be ended")
                raise Violation(problems[-1])
            if not state["leaving"]:
                serial, _ = usage(process.pid)
                seen = [s for s in sweeps if me in s and limit is not None and sum(s.values()) > limit
                        and process.pid in s and s[process.pid] == max(v for p, v in s.items() if p != me)]
                if not seen:
                    problems.append(f"a worker was ended although it did not use the most of too much memory: {serial} {sweeps[-3:]} {limit}")
                ended.append((serial, returned[0]))
                sweeps.clear()
            latest.pop(process.pid, None)
            result = original[name](process)
            if not state["leaving"]:
                open(os.path.join(folder, "release"), "w").close()
            return result
        return end

    def alive():
        return sum(1 for p in psutil.Process().children() if p.status() != psutil.STATUS_ZOMBIE)

    kinds, waiting, returned = [], {}, [0]
    model = {"n": workers, "bad": 0, "good": 0, "seen": 0}

    def submit(kind, size=0):
        serial = len(kinds)
        kinds.append(kind)
        future = evaluator.submit(job, serial, kind, size, folder)
        waiting[id(future)] = (serial, future)
        return serial

    def wait():
        future = evaluator.wait_next(poll_time=0.01)
        require(id(future) in waiting, "a future was returned that is not outstanding")
        serial, _ = waiting.pop(id(future))
        require(serial not in [s for s, _ in ended], "the job of an ended worker was returned", serial)
        require(future.exception is None and future.result == ("done", serial), "a job did not return its own result", future.result, future.exception)
        require(not problems, *problems[:1] or [""])
        for s, good in ended[model["seen"]:]:
            model["bad"] += 1
            good -= model["good"]
            if model["bad"] / (model["bad"] + good) < 0.05 or model["n"] == 1:
                ctx.label("replaced" if model["n"] > 1 else "last one replaced")
            else:
                ctx.label("pool shrunk")
                model["n"] -= 1
                model["bad"] = 0
                model["good"] += good
        model["seen"] = len(ended)
        require(alive() == model["n"], "wrong number of workers", alive(), model["n"], list(ended))
        returned[0] += 1

    def outstanding(doomed=("hog",)):
        gone = {s for s, _ in ended}
        return [s for s, _ in waiting.values() if kinds[s] not in doomed and s not in gone]

    def settle():
        """Wait until all that use too much memory are gone."""
        give_up = time.time() + 40
        hogs = {s for s, k in enumerate(kinds) if k == "hog"}
        while hogs - {s for s, _ in ended}:
            require(time.time() < give_up, "a worker that uses too much memory is not ended", hogs, ended)
            submit("pause")
            while outstanding():
                wait()
        return hogs

    for name in ("terminate", "kill"):
        setattr(psutil.Process, name, ending(name))
    psutil.Process.memory_info = memory_info
    evaluator = AsyncEvaluator(n_workers=workers, memory_limit_mb=limit, logfile=logfile, wait_time_before_forced_shutdown=0)
    try:
        with evaluator:
            if case["start"] == "exact" and limit is not None:
                submit("allowed", limit - MAIN - workers * BASE)  # uses exactly as much as there is
            elif case["start"] == "pair" and limit is not None:
                size = limit - MAIN - workers * BASE - case["spread"]  # fine alone, too much together
                submit("pair", size), submit("pair", size - 3)
            while outstanding():
                wait()
            if case["start"] == "pair" and limit is not None:
                require(len(ended) == 1 and kinds[ended[0][0]] == "pair", "not exactly one of the jobs that used too much together was ended", ended)
                ctx.label("pair")
            for op in case["ops"]:
                if op[0] == "quick":
                    for _ in range(op[1]):
                        submit("quick")
                    while outstanding():
                        wait()
                elif op[0] == "allowed":
                    submit("allowed", op[1])
                elif op[0] == "settle":
                    settle()
                elif limit is not None:
                    submit("hog", limit - MAIN + op[1])
                else:
                    submit("allowed", 5000)
            while outstanding():
                wait()
            hogs = settle()
            state["leaving"] = True
    finally:
        for name, fn in original.items():
            setattr(psutil.Process, name, fn)
    require(not problems, *problems[:1] or [""])
    names = [s for s, _ in ended]
    require(len(names) == len(set(names)) and None not in names, "a worker was ended although it executed no job", names)
    pairs = [s for s in names if kinds[s] == "pair"]
    require(set(names) - set(pairs) == hogs, "the workers that were ended are not those that used too much", names, kinds)
    runs = [int(line.split()[0]) for line in open(os.path.join(folder, "runs.txt")).read().split("\n")[:-1]]
    require(sorted(runs) == list(range(len(kinds))), "a job was executed twice or not at all", runs)
    require(not psutil.Process().children(), "worker processes are left behind")
    if logfile:
        lines = open(logfile).read().split("\n")
        require(lines[-1] == "" and len(lines) > 1, "the memory log has no complete line", lines[-1])
        times = []
        for line in lines[:-1]:
            stamp, *rest = line.split(",")
            times.append(datetime.datetime.fromisoformat(stamp))
            found = [(int(a), float(b)) for a, b in zip(rest[::2], rest[1::2])]
            require(len(rest) == 2 * len(found) and found[0] == (me, float(MAIN)), "a line of the memory log does not start with the main process", line)
            require(1 <= len(found) - 1 <= workers and len({p for p, _ in found}) == len(found), "a line of the memory log does not list the workers", line)
            require(all(v >= BASE for _, v in found[1:]), "the memory log has another usage", line)
        require(times == sorted(times), "the memory log is out of order")
        ctx.label("log")
    else:
        require(not os.path.exists(os.path.join(folder, "memory.log")), "a memory log was written")
    ctx.label(f"workers {workers}", f"hogs {min(3, len(hogs))}")
    ctx.nontrivial(bool(names) or (limit is not None and case["start"] == "exact"))


def check_history(case, ctx):
    saved = AsyncEvaluator.defaults
    try:
        AsyncEvaluator.defaults = {}
        run_history(case, ctx, os.getcwd())
    finally:
        AsyncEvaluator.defaults = saved
        for p in psutil.Process().children(recursive=True):
            try:
                p.kill()
                p.wait(timeout=5)
            except psutil.Error:
                pass


FACETS = [
    Facet("limit", histories, check_history, 128, 2500, "a worker was ended, or the limit was used up exactly", hang_s=100, shards=16),
]
