#!/usr/bin/env python3
"""Entry point of every check:  run_check.py PROPERTY [--tier quick|thorough] [--replay FILE].

Re-executes itself with the interpreter that has gama's dependencies and a pinned environment,
then hands over to harness.runner. Nothing is read from or written to /repo but its sources.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
PINNED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "LANG": "C.UTF-8",
    "HYPOTHESIS_NO_PLUGINS": "1",
    "VERIF_PINNED": "1",
}

if os.environ.get("VERIF_PINNED") != "1":
    env = dict(os.environ)
    env.update(PINNED)
    env.pop("PYTHONPATH", None)
    # black (used by export_script) and python live here
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, "third_party"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_DEV_REPO", "/repo"))  # another tree only while developing checks

from harness.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
