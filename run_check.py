#!/opt/venv/bin/python
"""run_check.py <PROPERTY> | --replay <file>"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":  # one deterministic process image
    os.environ.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
                      PYTHONDONTWRITEBYTECODE="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execv(py, [py] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    if sys.argv[1] == "--setup":  # nothing to build: sources are compiled from the working tree by every check
        core.preload()
        print("ready")
        sys.exit(0)
    sys.exit(core.check(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
