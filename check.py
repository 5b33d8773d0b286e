#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "QT_QPA_PLATFORM": "offscreen", "OPENBLAS_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive"}
if any(os.environ.get(k) != v for k, v in WANT.items()) or (os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) and sys.prefix != "/opt/venv"):
    os.environ.update(WANT)
    os.execv(PY if os.path.exists(PY) else sys.executable, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon import run
if __name__ == "__main__":
    rc = run.main()
    sys.stdout.flush()
    os._exit(rc)
