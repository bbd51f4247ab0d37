"""C30: log messages reach the terminal, the log file and the user's own handlers as configured, each once."""
import io
import logging
import os
import re
import sys

from hypothesis import strategies as st

from gama.postprocessing import NoPostProcessing
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = ["nobody else changes the handlers gama installs or the level of its loggers", "the terminal is what `sys.stdout` was when the object was made"]

LEVELS = [5, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
NAMES = ["gama", "gama.gama", "gama.utilities.generic.async_evaluator", "gama.search_methods.asha", "gama.added"]
verbosities = st.sampled_from(["default", logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL, 60, 15])


@st.composite
def histories(draw):
    ops = [["make", draw(verbosities), draw(st.sampled_from(["nothing", "models", "logs", "all"]))]]
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(["make", "message", "message", "fit", "handler", "cleanup"]))
        if kind == "make":
            ops.append(["make", draw(verbosities), draw(st.sampled_from(["nothing", "models", "logs", "all"]))])
        elif kind == "message":
            ops.append(["message", draw(st.sampled_from(LEVELS)), draw(st.sampled_from(NAMES)), draw(st.booleans())])
        elif kind == "fit":
            ops.append(["fit", draw(st.integers(0, 3)), draw(st.lists(st.sampled_from(["ok", "callback", "quiet"]), min_size=1, max_size=3))])
        elif kind == "handler":
            ops.append(["handler", draw(st.sampled_from(["stream", "file", "terminal"])), draw(st.sampled_from(LEVELS))])
        else:
            ops.append(["cleanup", draw(st.integers(0, 3)), draw(st.sampled_from(["logs", "all", "evaluations"]))])
    return {"ops": ops, "task": draw(st.sampled_from(["clf", "reg"])), "seed": draw(gen.seeds)}


class Recorder(logging.Handler):
    """Receives all messages of gama, independently of what gama sets up."""

    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.name, logging.Formatter().format(record)))


class Marked(logging.Formatter):
    """Puts a message in one line."""

    def format(self, record):
        return super().format(record).replace("\n", "\x02")


def text_of(records, level):
    return "".join(message + "\n" for at, _, message in records if at >= level)


STAMP = re.compile(r"\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - ([\w.]+)\] ")


class Made:
    """An object, and what is known of its log file."""

    def __init__(self, number, store):
        self.path = os.path.abspath(f"o{number}")
        self.log = os.path.join(self.path, "gama.log") if store in ("logs", "all") else None
        self.size = 0  # of the log file, when it was last looked at
        self.gone = False  # whether it was cleaned up, and no fit started since then

    def read(self):
        if self.log is None or not os.path.exists(self.log):
            return None
        with open(self.log) as fh:
            return fh.read()


def check_history(case, ctx):
    seed_all(case["seed"])
    logger = logging.getLogger("gama")
    recorder, terminal = Recorder(), io.StringIO()
    objects, active, level = [], None, None
    users = []  # [handler, level, stream or path, contents]
    previous = sys.stdout
    fits = 0
    with kit.clean_gama(), kit.SyncEvaluator():
        logger.addHandler(recorder)
        sys.stdout = terminal
        try:
            for op in case["ops"]:
                recorder.records.clear()
                terminal.seek(0), terminal.truncate()
                levels = [level]
                subject = None
                if op[0] == "make":
                    active = subject = Made(len(objects), op[2])
                    objects.append(subject)
                    level = logging.WARNING if op[1] == "default" else op[1]
                    subject.gama = make(case["task"], subject.path, op[2], {} if op[1] == "default" else {"verbosity": op[1]})
                    levels = [level] if levels == [None] else sorted([level, *levels])
                elif op[0] == "message":
                    try:
                        raise ValueError("inner\ntext")
                    except ValueError:
                        logging.getLogger(op[2]).log(op[1], "of the case %d", len(objects), exc_info=op[3])
                elif op[0] == "fit":
                    fits += 1
                    active = subject = objects[op[1] % len(objects)]
                    subject.gama._search_method.outcomes = op[2]
                    subject.gama.fit(*kit.numeric_xy(case["task"]))
                elif op[0] == "handler":
                    path = os.path.abspath(f"mine{len(users)}.log")
                    if op[1] == "terminal":
                        handler = logging.StreamHandler(sys.stdout)
                        handler.setFormatter(Marked(f"\x01{len(users)}: %(message)s"))
                    else:
                        handler = logging.StreamHandler(io.StringIO()) if op[1] == "stream" else logging.FileHandler(path)
                    handler.setLevel(op[2])
                    logger.addHandler(handler)
                    users.append([handler, op[2], {"stream": handler.stream, "file": path, "terminal": len(users)}[op[1]], ""])
                else:
                    subject = objects[op[1] % len(objects)]
                    subject.gama.cleanup(op[2])
                shown = terminal.getvalue().split("\n")
                check_terminal(op, levels, recorder.records, "\n".join(line for line in shown if not line.startswith("\x01")))
                check_handlers(op, users, recorder.records, shown)
                for one in objects:
                    check_file(op, one, one is subject, one is active, recorder.records)
        finally:
            sys.stdout = previous
            for handler, *_ in users:
                logger.removeHandler(handler)
                handler.close()
            logger.removeHandler(recorder)
    ctx.nontrivial(len(objects) > 1 or fits > 0)
    ctx.label("several made" if len(objects) > 1 else "one made", f"{fits} fits" if fits else "no fit", *(["own handlers"] if users else []))


def make(task, path, store, kwargs):
    from gama import GamaClassifier, GamaRegressor

    def program(operations, start):
        """Evaluations of which some make a callback fail."""
        logging.getLogger("gama.search_methods").debug("the search runs")
        kit.evaluate_all(operations, [operations.individual() for _ in search.outcomes])
        return []

    search = kit.ProbeSearch(program)
    search.outcomes = []
    g = (GamaClassifier if task == "clf" else GamaRegressor)(
        search=search, post_processing=NoPostProcessing(), search_space=kit.sklearn_space(task), scoring="accuracy" if task == "clf" else "r2", n_jobs=1, max_total_time=600, max_eval_time=60,
        output_directory=path, store=store, **kwargs)
    heard = []

    def callback(evaluation):
        heard.append(evaluation)
        outcome = search.outcomes[(len(heard) - 1) % len(search.outcomes)]
        if outcome == "callback":
            raise KeyError("of the callback")
        if outcome == "ok":
            logging.getLogger("gama.user").info("told")

    g.evaluation_completed(callback)
    return g


def check_terminal(op, levels, records, shown):
    # when the level changes, it does so at some point while the object is made
    sure, possible = text_of(records, levels[-1]), text_of(records, levels[0])
    require(is_within(sure.split("\n"), shown.split("\n")) and is_within(shown.split("\n"), possible.split("\n")),
            "the terminal does not show the messages of its level once", op, levels, shown, sure, possible)


def check_handlers(op, users, records, shown):
    for entry in users:
        handler, level, where, seen = entry
        handler.flush()
        if isinstance(where, int):
            mine = [line for line in shown if line.startswith(f"\x01{where}: ")]
            require(mine == [f"\x01{where}: " + text.replace("\n", "\x02") for at, _, text in records if at >= level], "a handler of the user does not get the messages of its level once", op, level, mine)
            continue
        if isinstance(where, str):
            with open(where) as fh:
                now = fh.read()
        else:
            now = where.getvalue()
        require(now == seen + text_of(records, level), "a handler of the user does not get the messages of its level once", op, level, now[len(seen):], text_of(records, level))
        entry[3] = now


def check_file(op, one, is_subject, is_active, records):
    contents = one.read()
    if one.log is None:
        require(not os.path.exists(os.path.join(one.path, "gama.log")), "a log file was not asked for", op)
        return
    if is_subject and op[0] == "cleanup" and op[2] in ("logs", "all"):
        require(contents is None, "the log file is still there after it was cleaned up", op)
        one.size, one.gone = 0, True
        return
    starts = is_subject and op[0] in ("make", "fit")
    if one.gone and not starts:
        # what is logged now is of no fit of this object: a file may be started for it, or not
        one.size = len(contents or "")
        return
    require(contents is not None, "there is no log file", op)
    new = contents[one.size:]
    entries = list(zip(STAMP.findall(new), STAMP.split(new)[2::2]))
    require(not new or STAMP.match(new), "the log file has something else than messages", op, new)
    want = [(n, m + "\n") for at, n, m in records if at >= logging.DEBUG]
    if starts:
        # the log goes to this file from some point of the preparation on
        require(entries == want[len(want) - len(entries):], "the log file is not what was logged", op, entries, want)
        require(op[0] == "make" or any("the search runs" in m for _, m in entries), "the log file does not start before the search", op, entries, want)
        one.gone = False
    elif op[0] in ("make", "fit"):
        # the log goes to the file of another object from some point of its preparation on
        require(entries == want[:len(entries)] and not any("the search runs" in m for _, m in entries), "what another object does is logged", op, entries, want)
    else:
        require(entries == (want if is_active else []), "the log file is not what was logged", op, entries, want)
    one.size = len(contents)


def is_within(part, whole):
    """Whether `part` is a subsequence of `whole`."""
    rest = iter(whole)
    return all(any(line == other for other in rest) for line in part)


FACETS = [
    Facet("history", histories, check_history, quick=400, thorough=8000,
          rule="histories of making objects with verbosities and store settings, fits with failing callbacks, messages of all levels, handlers of the user, and cleaning up; non-trivial: several objects, or a fit"),
]
