"""Shared small models: deterministic data, splits of a length over ranks, numpy references."""

import itertools

import numpy as np

from ..core import ASC, DESC, ROT, Bad, Family, need, same, tol_of  # noqa: F401

F8, F4, C16, C8, I8, I4 = "float64", "float32", "complex128", "complex64", "int64", "int32"
PARTS = ("SCATTER", "BROADCAST", "UNSAFE_BROADCAST")


def data(shape, dtype=F8, salt=0, nonzero=False):
    """Integer-valued (exact in float32), signed, non-symmetric, no repeated pattern along any axis."""
    n = int(np.prod(shape))
    i = np.arange(n, dtype=np.int64)
    v = ((i * 37 + salt * 101 + (i // 5) * 13 + (i * i) * 3 + 7) % 19) - 9
    if nonzero:
        v = np.where(v == 0, 4, v)
    dt = np.dtype(dtype)
    if dt.kind == "c":
        w = ((i * 23 + salt * 7 + (i // 3) * 29 + 5) % 17) - 8
        v = v + 1j * w
    return v.astype(dt).reshape(shape)


def distinct(shape, dtype=F8):
    n = int(np.prod(shape))
    v = np.arange(1, n + 1)
    return (v + (1j * (v + 100) if np.dtype(dtype).kind == "c" else 0)).astype(dtype).reshape(shape)


def split(n, P):
    return [n // P + (1 if r < n % P else 0) for r in range(P)]


def compositions(n, P, lo=0):
    """All ways of giving P ranks at least lo of n elements each, in order."""
    if P == 1:
        return [(n,)] if n >= lo else []
    return [(k,) + c for k in range(lo, n + 1) for c in compositions(n - k, P - 1, lo)]


def offsets(sizes):
    return np.concatenate([[0], np.cumsum(sizes)]).astype(int)


def pieces(x, sizes, axis=0):
    o = offsets(sizes)
    out = []
    for r in range(len(sizes)):
        s = [slice(None)] * x.ndim
        s[axis] = slice(o[r], o[r + 1])
        out.append(x[tuple(s)])
    return out


def shapes_for(shape, sizes, axis):
    out = []
    for k in sizes:
        s = list(shape)
        s[axis] = k
        out.append(tuple(s))
    return out


def part(env, name):
    return getattr(env.Partition, name)


def dist(env, x, sizes=None, axis=0, partition="SCATTER", **kw):
    """x (global, numpy) as a DistributedArray made without to_dist: by writing each rank's piece."""
    shape = x.shape
    ls = None if sizes is None else shapes_for(shape, sizes, axis)
    if partition != "SCATTER":
        ls = None
    a = env.DistributedArray(global_shape=shape, partition=part(env, partition), axis=axis, local_shapes=ls, dtype=x.dtype, **kw)
    if partition == "SCATTER":
        comm = kw.get("base_comm") or env.world
        me = comm.Get_rank()
        szs = split(shape[axis], comm.Get_size()) if sizes is None else sizes
        a[:] = pieces(x, szs, axis)[me]
    else:
        a[:] = x
    return a


def meta(a):
    """Everything a user can read off a DistributedArray, plus its local content."""
    return dict(gs=tuple(int(i) for i in a.global_shape), ls=tuple(int(i) for i in a.local_shape), axis=int(a.axis), part=a.partition.name,
                dtype=str(np.dtype(a.dtype)), ldtype=str(a.local_array.dtype), mask=None if a.mask is None else [int(i) for i in a.mask],
                loc=np.array(a.local_array, copy=True), rank=int(a.rank), size=int(a.size), engine=a.engine, ndim=int(a.ndim))


def check_global(obs, want, what, sizes=None, axis=0, partition="SCATTER", dtype=None, ravel=False, mask=False, tol=None):
    """obs: per-rank meta() of one distributed array; want: the global numpy array it has to represent.  sizes: expected extents of
    the pieces, or None if any tiling is fine."""
    P = len(obs)
    want = np.asarray(want)
    for r, m in enumerate(obs):
        if m["gs"] != want.shape:
            raise Bad(f"{what}: global shape {m['gs']} on rank {r}, should be {want.shape}")
        if m["part"] != partition:
            raise Bad(f"{what}: partition {m['part']} on rank {r}, should be {partition}")
        if m["loc"].shape != m["ls"]:
            raise Bad(f"{what}: rank {r} says local shape {m['ls']} but holds {m['loc'].shape}")
        if dtype is not None and (np.dtype(m["ldtype"]) != np.dtype(dtype) or np.dtype(m["dtype"]) != np.dtype(dtype)):
            raise Bad(f"{what}: dtype {m['dtype']}/{m['ldtype']} on rank {r}, should be {dtype}")
        if mask is not False and m["mask"] != mask:
            raise Bad(f"{what}: mask {m['mask']} on rank {r}, should be {mask}")
    if partition == "SCATTER":
        for r, m in enumerate(obs):
            if m["axis"] != axis:
                raise Bad(f"{what}: axis {m['axis']} on rank {r}, should be {axis}")
        got = [m["ls"][axis] for m in obs]
        if sizes is not None and list(sizes) != got:
            raise Bad(f"{what}: rank extents {got}, should be {list(sizes)}")
        if sum(got) != want.shape[axis]:
            raise Bad(f"{what}: the local pieces {got} do not tile the global extent {want.shape[axis]}")
        for r, w in enumerate(pieces(want, got, axis)):
            same(obs[r]["loc"], w, f"{what} on rank {r}", tol=tol)
    else:
        for r, m in enumerate(obs):
            same(m["loc"], want, f"{what} on rank {r}", tol=tol)


def col(obs, key):
    return [o[key] for o in obs]


def all_equal(xs, what):
    a = np.asarray(xs[0])
    for r, x in enumerate(xs):
        if not (np.asarray(x).shape == a.shape and np.array_equal(np.asarray(x), a, equal_nan=a.dtype.kind in "fc")):
            raise Bad(f"{what} differs between ranks: rank 0 has {a}, rank {r} has {x}")


def prod(**axes):
    """All combinations, as dicts."""
    ks = list(axes)
    return [dict(zip(ks, vs)) for vs in itertools.product(*axes.values())]
