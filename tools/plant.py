"""python tools/plant.py FILE.py...: makes seeded/<id>/ from descriptions (BUGS: id, property, file, old, new, needs, breaks, ranks, demo).

A development aid: no check uses it."""
import json
import os
import runpy
import subprocess
import sys
import tempfile
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
timeout -k 5 150 mpiexec --allow-run-as-root --oversubscribe --bind-to none -n %d --mca btl self,vader --mca btl_vader_single_copy_mechanism none /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import sys
import numpy as np
import pylops
import pylops_mpi
from mpi4py import MPI
from pylops_mpi import DistributedArray, Partition, StackedDistributedArray

comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()


def check(ok, text):
    """all ranks have to agree that it is fine"""
    if not ok:
        print(f"rank {rank}: {text}", file=sys.stderr, flush=True)
        comm.Abort(1)


'''


def main():
    for f in sys.argv[1:]:
        for b in runpy.run_path(f)["BUGS"]:
            d = os.path.join(ROOT, "seeded", b["id"])
            tmp = tempfile.mkdtemp()
            try:
                for fn, old, new in b["edits"]:
                    for side in "ab":
                        p = os.path.join(tmp, side, fn)
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        if not (side == "b" and os.path.exists(p)):
                            shutil.copy(os.path.join("/repo", fn), p)
                    s = open(p).read()
                    n = s.count(old)
                    k = b.get("nth", 0)
                    if n == 0 or (n > 1 and "nth" not in b):
                        sys.exit(f"{b['id']}: {n} places for {old!r}")
                    i = -1
                    for _ in range(k + 1):
                        i = s.index(old, i + 1)
                    open(p, "w").write(s[:i] + new + s[i + len(old):])
                diff = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
                diff = diff.replace("a/a/", "a/").replace("b/b/", "b/")
            finally:
                shutil.rmtree(tmp)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(SH % b["ranks"] + b.get("sh", ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].lstrip("\n"))
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)


main()
