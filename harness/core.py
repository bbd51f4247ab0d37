"""Facets, contexts and failures: what a property's module is written in.

A property module (harness/props/<id>.py) defines a list FACETS. A facet is one executable
statement of (part of) the property:

  strategy()        -> a Hypothesis strategy of *cases*: plain data (dict/list/tuple/str/numbers/
                       None, nan and inf included). Everything random is inside the case; code under
                       test that draws random numbers is seeded from an integer in the case.
  check(case, ctx)  -> runs the code under test on the case, raises Violation when the oracle fails,
                       and reports through ctx what the case exercised.

Because a case is data, a shrunk failure is written out with repr and replayed without Hypothesis.
"""
import contextlib
import os
import random
import shutil
import tempfile
import traceback

import numpy as np

REPO = os.environ.get("VERIF_DEV_REPO", "/repo")


class Violation(AssertionError):
    """The oracle of a property failed."""


class CheckError(Exception):
    """The harness itself can not interpret what it sees (exit 2, never a violation)."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule, weight=1.0, shards=None, hang_s=150):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick  # number of examples, over all shards
        self.thorough = thorough
        self.rule = rule  # what makes a case non-trivial
        self.weight = weight
        self.shards = shards
        self.hang_s = hang_s  # a case that takes this long (hundreds of times its normal cost) hangs


class Context:
    """What one execution of a case exercised."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True


def require(condition, message, *details):
    """Raise Violation unless condition; details are callables or values, only formatted on failure."""
    if not condition:
        parts = [message]
        for d in details:
            parts.append(repr(d() if callable(d) else d)[:2000])
        raise Violation(" | ".join(parts))


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed % (2**32))


_SCRATCH_ROOT = None


def scratch_root():
    global _SCRATCH_ROOT
    if _SCRATCH_ROOT is None or not os.path.isdir(_SCRATCH_ROOT):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and os.environ.get("VERIF_SHM", "1") == "1" else None
        _SCRATCH_ROOT = tempfile.mkdtemp(prefix="verif_", dir=base)
    return _SCRATCH_ROOT


def set_scratch_root(path):
    global _SCRATCH_ROOT
    _SCRATCH_ROOT = path


@contextlib.contextmanager
def scratch_dir():
    """A fresh directory, used as the current directory, removed afterwards."""
    path = tempfile.mkdtemp(prefix="case_", dir=scratch_root())
    old = os.getcwd()
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


def interpret_exception(exc):
    """'violation' or 'error' for an exception that escaped a check.

    An exception that came out of gama code is a violation: every check only makes calls its property
    says must succeed (calls that may raise are wrapped in the check). An exception raised in harness
    code while it reads a result is a violation too (the result can not be read as documented), except
    when it says that a name the harness uses is gone, which is an error of the harness.
    """
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (CheckError, ImportError, MemoryError, NotImplementedError)):
        return "error"
    frames = traceback.extract_tb(exc.__traceback__)
    in_gama = any(f.filename.startswith(os.path.join(REPO, "gama")) for f in frames)
    if in_gama:
        return "violation"
    text = str(exc)
    if isinstance(exc, AttributeError) and ("module 'gama" in text or "type object" in text):
        return "error"
    if isinstance(exc, TypeError) and (
        "unexpected keyword" in text or "positional argument" in text
    ):
        return "error"
    if isinstance(exc, (OSError,)):
        return "error"
    return "violation"


def describe_exception(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join(f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb[-4:])
    return f"{type(exc).__name__}: {str(exc)[:3000]} (at {where})"
