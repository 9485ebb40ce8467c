#!/usr/bin/env python3
"""Entry point: run.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python"
try:
    import hypothesis  # noqa: F401
    import numpy  # noqa: F401
    import scipy  # noqa: F401
except ImportError:
    import shutil
    alt = shutil.which("python3-vt") or PY
    if os.environ.get("VERIF_REEXEC") != "1":
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(alt, [alt] + sys.argv)
    raise
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(V, "lib"))
import runner  # noqa: E402

sys.exit(runner.main())
