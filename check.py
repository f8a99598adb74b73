#!/usr/bin/env python3
"""check.py <property> [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("SIM_BOOTED") != "1":
    env = dict(os.environ, SIM_BOOTED="1", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("PYTHONHASHSEED", "0")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    from sim import boot  # noqa: F401
    from sim import runner
    rc = runner.main(sys.argv[1], sys.argv[2:])
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
