#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", TERM="dumb", COLUMNS="200")
    python = VENV if os.path.exists(VENV) else sys.executable
    os.execve(python, [python, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
import runpy  # noqa: E402

runpy.run_path(os.path.join(HERE, "vlib", "site", "sitecustomize.py"))

if __name__ == "__main__":
    from vlib import core

    import objutils

    where = os.path.realpath(objutils.__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        print("ERROR: objutils imported from", where)
        sys.exit(3)
    sys.excepthook = sys.__excepthook__
    sys.exit(core.main("checks." + sys.argv[1].lower(), sys.argv[2:]))
