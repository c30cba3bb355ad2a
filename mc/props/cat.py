"""A catalogue of everything the package offers: small works that depend on (rank in the group, size of the group) only.

work(K) -> observation; K: where to do it (a communicator or none given) and how to look at results."""
import io

import pylops

from . import common
from .sol import *

ROUGH = [False]


def data(shape, dtype=F8, salt=0, nonzero=False):
    """the usual data, or such that every sum depends on the order of its terms"""
    d = common.data(shape, dtype, salt, nonzero)
    if ROUGH[0] and d.dtype.kind in "fc":
        i = np.arange(d.size).reshape(d.shape)
        d = (d * np.pi ** (i % 7 - 3) + 0.1).astype(dtype)
    return d


class K:
    def __init__(self, env, comm=None, P=None, me=None):
        self.env, self.comm = env, comm
        self.kw = {} if comm is None else dict(base_comm=comm)
        c = comm or env.world
        self.real = c
        self.P, self.me = c.Get_size(), c.Get_rank()

    def on(self, x):
        """does x live on our communicator?"""
        return bool(self.env.MPI.Comm.Compare(x.base_comm, self.real) == self.env.MPI.IDENT)

    def see(self, x):
        e = self.env
        if isinstance(x, e.StackedDistributedArray):
            return dict(on=self.on(x), rank=int(x.rank), size=int(x.size), parts=[self.see(a) for a in x.distarrays])
        if isinstance(x, e.DistributedArray):
            return dict(meta(x), on=self.on(x))
        if x is None or isinstance(x, (bool, int, float, complex, str)):
            return x
        if isinstance(x, (tuple, list)):
            return [self.see(a) for a in x]
        if isinstance(x, np.generic):
            return x
        return np.array(x)

    def op(self, op):
        return dict(on=self.on(op), rank=int(op.rank), size=int(op.size), shape=tuple(int(i) for i in op.shape), dtype=str(np.dtype(op.dtype)))

    def dist(self, x, sizes=None, axis=0, partition="SCATTER", **kw):
        return dist(self.env, x, sizes, axis, partition, **kw, **self.kw)

    def new(self, *a, **k):
        return self.env.DistributedArray(*a, **k, **self.kw)

    def to_dist(self, x, **k):
        return self.env.DistributedArray.to_dist(x, **k, **self.kw)


WORKS = {}


def work(f):
    WORKS[f.__name__] = f
    return f


def uneven(n, P):
    """a split that is not the default one"""
    e = split(n, P)
    if P > 1:
        k = int(np.argmax(e))
        e[k] -= 1
        e[k - 1 if k else P - 1] += 1
    return e


# ------------------------------------------------------------------------------------------------------------------ arrays
@work
def construct(k):
    P = k.P
    out = []
    a = k.new(global_shape=2 * P + 1)
    a[:] = data((split(2 * P + 1, P)[k.me],), F8, k.me)
    out.append(k.see(a))
    out.append(k.see(k.dist(data((2 * P, 2), C16, 1), uneven(2 * P, P))))
    out.append(k.see(k.dist(data((3, P + 1), F4, 1), axis=1)))
    return out, [tuple(int(i) for i in s) for s in a.local_shapes]


@work
def writes(k):
    a = k.new(global_shape=3, partition=k.env.Partition.BROADCAST)
    a[:] = np.arange(3.) + 10 * k.me
    a[1] = 5. + k.me
    b = k.new(global_shape=3, partition=k.env.Partition.UNSAFE_BROADCAST)
    b[:] = np.arange(3.)
    for v in (a.local_array.copy(), np.arange(3.) + k.me, np.full(3, 2.)):  # what is there already, on some ranks or all
        a[:] = v
        a[2] = 2. + (k.me == 1)
        b[:] = v
    return k.see([a, b])


@work
def gather(k):
    P = k.P
    a = k.to_dist(data((P + 1, 2), F8, 2))
    b = k.to_dist(data((2, 2 * P), C16, 2), axis=1, local_shapes=shapes_for((2, 2 * P), uneven(2 * P, P), 1))
    c = k.to_dist(data((3,), I8, 2), partition=k.env.Partition.BROADCAST)
    return k.see([a, b, c, a.asarray(), b.asarray(), c.asarray()])


@work
def arithmetic(k):
    n = k.P + 2
    x, y = k.dist(data((n,), F8, 1)), k.dist(data((n,), C16, 2))
    z = x + y
    return k.see([z, x - y, x * y, -y, 3 * x, y * 2j, y.conj(), x.copy(), y.zeros_like()])


@work
def inplace(k):
    n = k.P + 2
    x, y = k.dist(data((n, 2), F8, 1), uneven(n, k.P)), k.dist(data((n, 2), F8, 2), uneven(n, k.P))
    x += y
    y -= x
    b = k.dist(data((3,), F8, 1), partition="BROADCAST")
    b += k.dist(data((3,), F8, 4), partition="BROADCAST")
    return k.see([x, y, b])


@work
def dots(k):
    n = 2 * k.P - 1
    x, y = k.dist(data((n,), C16, 1)), k.dist(data((n,), C16, 2))
    b = k.dist(data((4,), F8, 1), partition="BROADCAST")
    return k.see([x.dot(y), b.dot(b)])


@work
def norms(k):
    n = 2 * k.P - 1
    x = k.dist(data((n,), C16, 1), uneven(n, k.P))
    return k.see([x.norm(o) for o in (None, 0, 1, 3, np.inf, -np.inf)])


@work
def norms2(k):
    x = k.dist(data((k.P + 1, 2), F8, 1))
    b = k.dist(data((3,), F8, 1), partition="BROADCAST")
    return k.see([x.norm(2), x.norm(1, axis=0), x.norm(np.inf, axis=0), x.norm(-np.inf, axis=0), b.norm(1), b.norm(np.inf)])


@work
def masked(k):
    P = k.P
    x = k.dist(data((2 * P,), F8, 1), mask=[r % 2 for r in range(P)])
    y = k.dist(data((2 * P,), F8, 2), mask=[r % 2 for r in range(P)])
    return k.see([x + y, x.dot(y), x.norm(2), x.norm(np.inf), x.asarray()])


@work
def ravels(k):
    return k.see([k.dist(data((k.P + 1, 2), F8, 1)).ravel(), k.dist(data((2, k.P), F8, 1), axis=1).ravel("F")])


@work
def ghosts(k):
    x = k.dist(data((2 * k.P,), F8, 1))
    return k.see([x.add_ghost_cells(1, 2), x.add_ghost_cells(cells_front=2), x.add_ghost_cells(cells_back=1)])


@work
def ghosts2(k):
    x = k.dist(data((2, 2 * k.P), C16, 1), axis=1)
    return k.see([x.add_ghost_cells(2, 1), x.add_ghost_cells(0, 0)])


@work
def stackedarrays(k):
    P = k.P

    def mk(s):
        return k.env.StackedDistributedArray([k.dist(data((P + 1,), F8, s)), k.dist(data((3,), F8, s + 1), partition="BROADCAST")], **k.kw)

    x, y = mk(1), mk(5)
    z = x + y
    x -= y
    return k.see([z, x, 2 * y, -y, y.conj(), x.dot(y), y.norm(), y.norm(np.inf), y.asarray(), x * y])


# --------------------------------------------------------------------------------------------------------------- operators
def both(k, op, m, d, alt=None):
    """op forward and adjoint; m, d: layouts of model and data"""
    N, M = size_of(m), size_of(d)
    dt = np.dtype(op.dtype)
    x, y = put(k.env, m, data((N,), dt, 3), **k.kw), put(k.env, d, data((M,), dt, 4), **k.kw)
    return k.see([op.matvec(x), op.rmatvec(y), x, y]), k.op(op)


def zoo(name, dtype, n):
    def f(k):
        nn = n(k.P)
        return both(k, make(k.env, name, nn, k.P, dtype, **k.kw), *domain(name, nn, k.P))

    f.__name__ = "op" + name
    work(f)


zoo("A", C16, lambda P: P + 1)
zoo("R", F8, lambda P: P + 1)
zoo("V", F8, lambda P: 3)
zoo("U", C16, lambda P: 2)
zoo("H", F8, lambda P: 3)
zoo("W", C16, lambda P: 3)


def deriv(cls, tag, shape, **kw):
    def f(k):
        dims = shape(k.P)
        n = int(np.prod(dims))
        op = getattr(k.env, cls)(dims, dtype=np.float64, **kw, **k.kw)
        return both(k, op, ("SCATTER", split(n, k.P)), ("SCATTER", split(n, k.P)))

    f.__name__ = tag
    work(f)


deriv("MPIFirstDerivative", "fd_forward", lambda P: (2 * P,), kind="forward")
deriv("MPIFirstDerivative", "fd_backward", lambda P: (P + 1, 2), kind="backward")
deriv("MPIFirstDerivative", "fd_centered3", lambda P: (2 * P + 1,), kind="centered", edge=True)
deriv("MPIFirstDerivative", "fd_centered5", lambda P: (4 * P + 1,), kind="centered", order=5, edge=True)
deriv("MPISecondDerivative", "sd_forward", lambda P: (2 * P + 1,), kind="forward")
deriv("MPISecondDerivative", "sd_backward", lambda P: (2 * P + 1,), kind="backward")
deriv("MPISecondDerivative", "sd_centered", lambda P: (3 * P, 2), kind="centered", edge=True)
deriv("MPILaplacian", "laplacian", lambda P: (2 * P + 1, 3), axes=(0, 1))
deriv("MPILaplacian", "laplacian1", lambda P: (P + 1, 4), axes=(1,), weights=(2,), sampling=(1,))


@work
def gradient(k):
    dims = (2 * k.P + 1, 3)
    op = k.env.MPIGradient(dims, dtype=np.float64, **k.kw)
    n = int(np.prod(dims))
    x = k.dist(data((n,), F8, 3))
    y = k.env.StackedDistributedArray([k.dist(data((n,), F8, 4)), k.dist(data((n,), F8, 5))], **k.kw)
    return k.see([op.matvec(x), op.rmatvec(y)]), k.op(op)


@work
def resplit(k):
    """vectors split in another way than the operator's"""
    P = k.P
    n = 2 * P + 1
    op = make(k.env, "A", n, P, F8, **k.kw)
    front = split(n, P)
    if P > 1:  # give from the first to the last and back
        front[0] -= 1
        front[-1] += 1
    e = split(n, P)[::-1]
    out = []
    for s in (front, e):
        for o in (op, op.H):
            x = k.dist(data((n,), F8, 3), s)
            out += [o.matvec(x), x]
    return k.see(out)


@work
def resplit2(k):
    P = k.P
    n = 3 * P
    V = k.env.MPIVStack([pylops.MatrixMult(data((3, 2), F8, k.me), dtype=np.float64)], **k.kw)
    s = [3] * P
    if P > 1:
        s[0], s[1] = 2, 4
    D = k.env.MPIFirstDerivative((n,), dtype=np.float64, **k.kw)
    return k.see([V.rmatvec(k.dist(data((n,), F8, 1), s)), D.matvec(k.dist(data((n,), F8, 1), s)), D.rmatvec(k.dist(data((n,), F8, 1), s)),
                  D.matvec(k.dist(data((n,), F8, 1), partition="BROADCAST"))])


@work
def multi(k):
    """several operators per rank"""
    ops = [pylops.MatrixMult(data((2, 2 + j), C16, k.me + j), dtype=np.complex128) for j in range(2)]
    B = k.env.MPIBlockDiag(ops, **k.kw)
    H = k.env.MPIHStack([pylops.MatrixMult(data((2, 1 + j), C16, k.me + j), dtype=np.complex128) for j in range(2)], **k.kw)
    return (both(k, B, ("SCATTER", [5] * k.P), ("SCATTER", [4] * k.P)), both(k, H, ("SCATTER", [3] * k.P), ("BROADCAST", 2)))


@work
def expression(k):
    P, n = k.P, k.P + 1
    A, B, R = (make(k.env, s, n, P, C16, **k.kw) for s in "ABR")
    m = domain("A", n, P)[0]
    E = 2j * A.H * B + A ** 2 - B.T
    F = R.H * R + A.conj()
    return both(k, E, m, m), both(k, F, m, m), both(k, R * A, m, domain("R", n, P)[1])


@work
def stackedops(k):
    P, n = k.P, 2 * k.P + 1
    A, R, D = (make(k.env, s, n, P, F8, **k.kw) for s in "ARD")
    m, r, d = domain("A", n, P)[0], domain("R", n, P)[1], domain("D", n, P)[0]
    VS = k.env.MPIStackedVStack([A, R, D], **k.kw)
    BD = k.env.MPIStackedBlockDiag([A, R], **k.kw)
    x = put(k.env, m, data((n,), F8, 3), **k.kw)

    def st(ls, s):
        return k.env.StackedDistributedArray([put(k.env, q, data((size_of(q),), F8, s + j), **k.kw) for j, q in enumerate(ls)], **k.kw)

    out = [VS.matvec(x), VS.rmatvec(st([m, r, d], 1)), BD.matvec(st([m, m], 2)), BD.rmatvec(st([m, r], 3))]
    return k.see(out), k.op(VS), k.op(BD)


@work
def stackedexpr(k):
    P, n = k.P, k.P + 1
    A, B = (make(k.env, s, n, P, C16, **k.kw) for s in "AB")
    m = domain("A", n, P)[0]
    S = k.env.MPIStackedBlockDiag([A, B], **k.kw)
    E = ((2j * (S.H * S)).T).conj() * (S ** 2) + S * S.H
    x = k.env.StackedDistributedArray([put(k.env, m, data((n,), C16, j), **k.kw) for j in range(2)], **k.kw)
    return k.see([E.matvec(x), E.rmatvec(x)]), k.op(E)


@work
def fredholm(k):
    nsl = [2 + r % 2 for r in range(k.P)]
    G = pieces(data((sum(nsl), 2, 3), C16, 4), nsl)[k.me]
    out = []
    for sv in (True, False):
        op = k.env.MPIFredholm1(G, nz=2, saveGt=sv, usematmul=sv, dtype=np.complex128, **k.kw)
        out.append(both(k, op, ("BROADCAST", sum(nsl) * 6), ("BROADCAST", sum(nsl) * 4)))
    return out


@work
def mdc(k):
    nsl = [2] * k.P
    nt = 4 * k.P + 1
    G = pieces(data((sum(nsl), 2, 2), C16, 4), nsl)[k.me]
    out = []
    for conj in (False, True):
        op = k.env.MPIMDC(G, nt=nt, nv=1, nfreq=sum(nsl), conj=conj, **k.kw)
        x = k.dist(data((2 * nt,), F8, 3), partition="BROADCAST")
        out.append((k.see([op.matvec(x), op.rmatvec(x)]), k.op(op)))
    return out


@work
def dottests(k):
    n = k.P + 1
    A, R = make(k.env, "A", n, k.P, C16, **k.kw), make(k.env, "R", n, k.P, F8, **k.kw)
    res = []
    for op, (m, d) in ((A, domain("A", n, k.P)), (R, domain("R", n, k.P))):
        u, v = (put(k.env, q, data((size_of(q),), np.dtype(op.dtype), 7 + j), **k.kw) for j, q in enumerate((m, d)))
        res.append(bool(k.env.dottest(op, u, v, size_of(d), size_of(m))))
    return res


# ----------------------------------------------------------------------------------------------------------------- solvers
def solve(tag, kind, name, dtype, niter=2, **kw):
    def f(k):
        s = System(name, k.P + 1 if "D" not in name.replace("BD", "") else 3 * k.P, k.P, dtype)
        op = s.build(k.env, **k.kw)
        M, N = s.matrix.shape
        y, x0 = s.put(k.env, 1, data((M,), dtype, 3), **k.kw), s.put(k.env, 0, data((N,), dtype, 8), **k.kw)
        fun = k.env.cg if kind == "cg" else k.env.cgls
        seen = []
        res = fun(op, y, x0, niter=niter, tol=1e-12, callback=lambda x: seen.append(k.see(x)), **kw)
        return k.see(res), seen, k.see([y, x0])

    f.__name__ = tag
    work(f)


solve("cg_plain", "cg", "P", C16)
solve("cg_broadcast", "cg", "Y", F8)
solve("cg_expr", "cg", "R.H*R + 40*P", F8)
solve("cg_stacked", "cg", "BD(P, Y)", F8, 1)
solve("cgls_plain", "cgls", "R", F8, damp=0.5)
solve("cgls_vstack", "cgls", "U", C16)
solve("cgls_hstack", "cgls", "H", F8, damp=1.0)
solve("cgls_stacked", "cgls", "VS(R, P)", F8, 1, damp=0.5)
solve("cgls_derivative", "cgls", "VS(P, D)", F8, 1)


@work
def rejected(k):
    """errors that every rank raises leave communication in order"""
    P, n = k.P, k.P + 1
    A = make(k.env, "A", n, P, F8, **k.kw)
    x = k.dist(data((n,), F8, 1))
    out = []
    for f in (lambda: A.matvec(k.dist(data((n + 1,), F8, 1))), lambda: A.matvec(k.dist(data((n,), F8, 1), partition="BROADCAST")),
              lambda: x + k.dist(data((n,), F8, 1), partition="BROADCAST"), lambda: x.norm("fro"),
              lambda: k.new(global_shape=n, local_shapes=[(1,)] * (P + 1)), lambda: A ** -1, lambda: k.new(global_shape=n, axis=1)):
        try:
            f()
            out.append("returned")
        except Exception as e:  # noqa: BLE001
            out.append(type(e).__name__)
    return out, k.see(A.matvec(x))


def run(name, env, comm=None):
    return WORKS[name](K(env, comm))
