"""A small zoo of distributed operators with their dense matrices, for composites."""
import pylops

from .linop import *

SHAPES = {  # (rows, columns) of the local block of rank r
    "A": lambda r, n, P: (split(n, P)[r],) * 2,
    "B": lambda r, n, P: (split(n, P)[r],) * 2,
    "R": lambda r, n, P: (split(n, P)[r] + 1, split(n, P)[r]),
    "Q": lambda r, n, P: (split(n, P)[r] + 1, split(n, P)[r]),
}


def dense_blocks(name, n, P, dtype):
    salt = dict(A=0, B=40, R=80, Q=120, V=160, U=180, H=200, W=240, Z=280)[name]
    if name in SHAPES:
        return [data(SHAPES[name](r, n, P), dtype, salt + r) for r in range(P)]
    if name in ("V", "U"):
        return [data((1 + r % 2, n), dtype, salt + r) for r in range(P)]
    if name == "H":
        return [data((n, 1 + (r + 1) % 2), dtype, salt + r) for r in range(P)]
    return [data((n, n), dtype, salt)]  # W: the same on all ranks


@frozen
def dense(name, n, P, dtype):
    from .c15 import blockdiag

    if name == "D":
        return np.asarray(pylops.FirstDerivative(n, edge=True, dtype=dtype).todense())
    if name == "S":
        return np.asarray(pylops.SecondDerivative(n, kind="backward", dtype=dtype).todense())
    b = dense_blocks(name, n, P, dtype)
    if name in SHAPES:
        return blockdiag(b, dtype)
    if name in ("V", "U"):
        return np.vstack(b)
    if name == "H":
        return np.hstack(b)
    return b[0]


def make(env, name, n, P, dtype, **kw):
    dt = np.dtype(dtype)
    comm = kw.get("base_comm")
    me = env.rank if comm is None else comm.Get_rank()
    if name == "D":
        return env.MPIFirstDerivative(n, edge=True, dtype=dt, **kw)
    if name == "S":
        return env.MPISecondDerivative(n, kind="backward", dtype=dt, **kw)
    b = dense_blocks(name, n, P, dtype)
    if name in SHAPES:
        return env.MPIBlockDiag([pylops.MatrixMult(b[me], dtype=dt)], **kw)
    if name in ("V", "U"):
        return env.MPIVStack([pylops.MatrixMult(b[me], dtype=dt)], **kw)
    if name == "H":
        return env.MPIHStack([pylops.MatrixMult(b[me], dtype=dt)], **kw)
    return env.MPILinearOperator(pylops.MatrixMult(b[0], dtype=dt), **kw)


def domain(name, n, P):
    """(partition, extents, size) of the model; of the data"""
    rows, cols = dense(name, n, P, F8).shape
    if name in ("D", "S"):
        return ("SCATTER", split(n, P)), ("SCATTER", split(n, P))
    if name in SHAPES:
        e = [SHAPES[name](r, n, P) for r in range(P)]
        return ("SCATTER", [x[1] for x in e]), ("SCATTER", [x[0] for x in e])
    if name in ("V", "U"):
        return ("BROADCAST", cols), ("SCATTER", [1 + r % 2 for r in range(P)])
    if name == "H":
        return ("SCATTER", [1 + (r + 1) % 2 for r in range(P)]), ("BROADCAST", rows)
    return ("BROADCAST", cols), ("BROADCAST", rows)


def size_of(d):
    return d[1] if d[0] == "BROADCAST" else sum(d[1])


def put(env, d, vec, **kw):
    return dist(env, vec, None if d[0] == "BROADCAST" else d[1], partition=d[0], **kw)


def check_at(d, obs, want, what, dtype=None, **kw):
    check_global(obs, want, what, sizes=None if d[0] == "BROADCAST" else d[1], partition=d[0], dtype=dtype, **kw)
