#!/usr/bin/env python3
"""Usage: run.py Cxx [quick|thorough] -- decide one property (see DESIGN.md)."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY) \
        and not os.environ.get("VERIF_REEXEC"):
    e = dict(os.environ, VERIF_REEXEC="1", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
             MPLBACKEND="Agg", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", PYTHONHASHSEED="0")
    e.setdefault("HOME", "/root")
    e.pop("PYTHONPATH", None)
    e["MPLCONFIGDIR"] = os.path.join(HERE, "build", "mpl")
    os.makedirs(e["MPLCONFIGDIR"], exist_ok=True)
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], e)

sys.path.insert(0, os.path.join(HERE, "harness"))
import checks  # noqa: E402

sys.exit(checks.main(sys.argv[1:]))
