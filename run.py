#!/opt/venv/bin/python
"""Entry point:  run.py C07 [--tier quick|thorough] [--replay FILE] [--sub NAME]

exit 0: property held on everything explored; exit 1: VIOLATION; exit 2: harness problem.
"""
import os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execv(py, [py, "-W", "ignore"] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from lib import harness
sys.exit(harness.main(sys.argv[1:]))
