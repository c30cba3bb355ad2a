"""Runs cases on real MPI processes: mpiexec -n P python -m mc.real IN OUT."""

import os
import pickle
import sys

sys.dont_write_bytecode = True


def main():
    inp, outp = sys.argv[1:3]
    repo = os.environ.get("PYLOPS_MPI_REPO", "/repo")
    sys.path.insert(0, repo)
    import matplotlib

    matplotlib.use("Agg")
    from mpi4py import MPI

    from mc import engine, simmpi

    if engine.FINDER not in sys.meta_path:  # sources of the working tree, never a stale .pyc
        sys.meta_path.insert(0, engine.FINDER)
    import pylops_mpi
    import pylops_mpi.signalprocessing  # noqa: F401
    import pylops_mpi.waveeqprocessing  # noqa: F401
    import pylops_mpi.utils.dottest  # noqa: F401
    import pylops_mpi.utils.decorators  # noqa: F401
    import pylops_mpi.optimization.cls_basic  # noqa: F401
    from mc.core import load_property

    engine.quiet()
    comm = MPI.COMM_WORLD
    with open(inp, "rb") as f:
        pid, jobs = pickle.load(f)
    prop = load_property(pid)
    out = open(outp, "wb") if comm.rank == 0 else None
    sys.stdout = open(os.devnull, "w")
    for idx, fi, cfg in jobs:
        fam = prop.FAMILIES[fi]
        env = engine.Env(comm.rank, comm.size, sys.modules)
        try:
            r = ("ret", fam.program(env, cfg))
        except simmpi.Unsupported as e:
            r = ("exc", ("Unsupported", str(e)))
        except Exception as e:  # noqa: BLE001
            r = ("exc", (type(e).__name__, str(e)[:400]))
        # a case in which only some ranks raise may leave messages behind or never end: then the job is killed and the rest of
        # the cases stays unvalidated
        res = comm.gather(r, root=0)
        if comm.rank == 0:
            pickle.dump((idx, res), out)
            out.flush()
        if any(x[0] == "exc" for x in comm.bcast(res, root=0)):
            comm.barrier()


main()
