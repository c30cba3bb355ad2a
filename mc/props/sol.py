"""Systems for the solvers: distributed operators with their dense matrices and vector layouts, and textbook CG and CGLS."""
import pylops

from .stk import *
from .c15 import blockdiag


def spd(k, dtype, salt):
    M = data((k, k), dtype, salt)
    return ((M @ M.conj().T) / 64 + np.diag(2 + np.arange(k) % 3)).astype(dtype)


def blocks(name, n, P, dtype):
    if name == "P":
        return [spd(k, dtype, 20 + r) for r, k in enumerate(split(n, P))]
    if name == "Pu":
        return [spd(1 + (r * 2 + 1) % 4, dtype, 30 + r) for r in range(P)]
    return [spd(n, dtype, 40)]


class System:
    """name -> operator (build), matrix, layouts of model and data (a layout or a list of them)."""

    ATOMS = ("P", "Pu", "Y", "A", "R", "Q", "V", "U", "H", "W", "D", "S")

    def __init__(self, name, n, P, dtype):
        self.name, self.n, self.P, self.dtype = name, n, P, dtype

    def atom_dense(self, a):
        if a in ("P", "Pu", "Y"):
            b = blocks(a, self.n, self.P, self.dtype)
            return blockdiag(b, self.dtype) if a != "Y" else b[0]
        return dense(a, self.n, self.P, self.dtype)

    def atom_domain(self, a):
        if a in ("P", "Pu"):
            e = ("SCATTER", [b.shape[0] for b in blocks(a, self.n, self.P, self.dtype)])
            return e, e
        if a == "Y":
            return ("BROADCAST", self.n), ("BROADCAST", self.n)
        return domain(a, self.n, self.P)

    def atom_make(self, env, a, **kw):
        dt = np.dtype(self.dtype)
        me = env.rank if "base_comm" not in kw else kw["base_comm"].Get_rank()
        if a in ("P", "Pu"):
            return env.MPIBlockDiag([pylops.MatrixMult(blocks(a, self.n, self.P, self.dtype)[me], dtype=dt)], **kw)
        if a == "Y":
            return env.MPILinearOperator(pylops.MatrixMult(blocks(a, self.n, self.P, self.dtype)[0], dtype=dt), **kw)
        return make(env, a, self.n, self.P, self.dtype, **kw)

    # expressions: python expressions over atoms, VS(..), BD(..)
    def build(self, env, **kw):
        memo = {a: self.atom_make(env, a, **kw) for a in self.ATOMS if self.uses(a)}
        return eval(self.name, dict(memo, VS=lambda *o: env.MPIStackedVStack(list(o), **kw), BD=lambda *o: env.MPIStackedBlockDiag(list(o), **kw)))

    def uses(self, a):
        import re
        return a in re.findall(r"[A-Za-z]+", self.name)

    @property
    def matrix(self):
        return _matrix(self.name, self.n, self.P, self.dtype)

    def sides(self):
        """layouts of model and data"""
        name = self.name

        class L:
            def __init__(s, m, d):
                s.m, s.d = m, d

            @property
            def H(s):
                return L(s.d, s.m)

            def __mul__(s, o):
                return L(o.m, s.d)

            __rmul__ = lambda s, c: s  # noqa: E731

            def __add__(s, o):
                return s

        atoms = {a: L(*self.atom_domain(a)) for a in self.ATOMS if self.uses(a)}
        l = eval(name, dict(atoms, VS=lambda *o: L(o[0].m, [x.d for x in o]), BD=lambda *o: L([x.m for x in o], [x.d for x in o])))
        return l.m, l.d

    def put(self, env, side, vec, alt=False, **kw):
        """vec as a vector of that layout (alt: scattered vectors in another split)"""
        lay = self.sides()[side]
        if not isinstance(lay, list):
            return put(env, self.alt(lay) if alt else lay, vec, **kw)
        o = offsets([size_of(k) for k in lay])
        return env.StackedDistributedArray([put(env, self.alt(d) if alt else d, vec[o[j]:o[j + 1]], **kw) for j, d in enumerate(lay)], **kw)

    def alt(self, d):
        if d[0] == "BROADCAST" or self.P == 1:
            return d
        e = list(d[1])
        k = int(np.argmax(e))
        e[k] -= 1
        e[(k + 1) % self.P if k + 1 < self.P else k - 1] += 1
        return (d[0], e)

    def check(self, side, obs, want, what, dtype=None, alt=False, tol=None):
        lay = self.sides()[side]
        if not isinstance(lay, list):
            check_at(self.alt(lay) if alt else lay, obs, want, what, dtype, tol=tol)
            return
        o = offsets([size_of(k) for k in lay])
        for r, x in enumerate(obs):
            need(isinstance(x, list) and len(x) == len(lay), f"{what}: not a stack of {len(lay)} arrays on rank {r}")
        for j, d in enumerate(lay):
            check_at(self.alt(d) if alt else d, [x[j] for x in obs], want[o[j]:o[j + 1]], f"{what}, part {j}", dtype, tol=tol)


@frozen
def _matrix(name, n, P, dtype):
    s = System(name, n, P, dtype)

    class M(np.ndarray):
        @property
        def H(self):
            return self.conj().T

        def __mul__(self, o):
            return (np.asarray(self) @ np.asarray(o)).view(M)

        def __rmul__(self, c):
            return (c * np.asarray(self)).view(M)

    mats = {a: np.asarray(s.atom_dense(a)).view(M) for a in s.ATOMS if s.uses(a)}
    return np.asarray(eval(name, dict(mats, VS=lambda *o: np.vstack(o).view(M), BD=lambda *o: blockdiag([np.asarray(k) for k in o], dtype).view(M))))


SCALES = ((2.0 ** -30, 1.0), (2.0 ** 30, 1.0), (2.0 ** -150, 1.0), (1.0, 2.0 ** -30), (1.0, 2.0 ** 30), (2.0 ** -30, 2.0 ** 30), (2.0 ** -40, 2.0 ** -40))


def unscaled(o, fx, fy):
    """The observation of one rank for values of the model divided by fx, of the data by fy."""
    def one(x, f):
        return [one(m, f) for m in x] if isinstance(x, list) else dict(x, loc=x["loc"] / f)

    o = dict(o, x=one(o["x"], fx), x0=one(o["x0"], fx), y=one(o["y"], fy), seen=[one(x, fx) for x in o["seen"]], cost=o["cost"] / fy)
    for k in ("r", "cost1"):
        if o.get(k) is not None:
            o[k] = o[k] / fy
    if o.get("extra"):
        o["extra"] = (o["extra"][0], o["extra"][1] / fy)
    return o


def see(env, x):
    return [meta(a) for a in x.distarrays] if isinstance(x, env.StackedDistributedArray) else meta(x)


def steady(lo, hi, tol):
    """How many iterates of a reference are unaffected by rounding: where double and extended precision agree 10^4 times better
    than the tolerance."""
    sc = max(1.0, max(np.abs(h[0]).max() for h in hi))
    for j, (a, b) in enumerate(zip(lo, hi)):
        if np.abs(a[0] - b[0]).max() * 1e4 > tol * sc or abs(np.sqrt(a[1]) - np.sqrt(b[1])) * 1e4 > tol * np.sqrt(float(hi[0][1]) + 1):
            return j - 1
    return min(len(lo), len(hi)) - 1


def cg_ref(A, y, x0, steps, typ=complex):
    """-> [(x, squared residual norm)] for 0..steps iterations (fewer after exact convergence)"""
    A = A.astype(typ)
    x = x0.astype(typ)
    r = y - A @ x
    c = r.copy()
    k = np.vdot(r, r).real
    out = [(x, k)]
    for _ in range(steps):
        if k == 0:
            break
        q = A @ c
        a = k / np.vdot(c, q).real
        x = x + a * c
        r = r - a * q
        k1 = np.vdot(r, r).real
        c = r + k1 / k * c
        k = k1
        out.append((x, k))
    return out


def cgls_ref(A, y, x0, damp, steps, typ=complex):
    """CGLS on the system augmented with damp * identity -> [(x, squared norm of the gradient, ||y - A x||, ||augmented residual||)]"""
    n = A.shape[1]
    G = np.vstack([A.astype(typ), damp * np.eye(n)])
    b = np.concatenate([y.astype(typ), np.zeros(n)])
    x = x0.astype(typ)
    s = b - G @ x
    r = G.conj().T @ s
    c = r.copy()
    k = np.vdot(r, r).real

    def row():
        return (x, k, np.sqrt(np.sum(np.abs(y - A @ x) ** 2)), np.sqrt(np.sum(np.abs(b - G @ x) ** 2)))

    out = [row()]
    for _ in range(steps):
        q = G @ c
        if k == 0 or np.vdot(q, q).real == 0:
            break
        a = k / np.vdot(q, q).real
        x = x + a * c
        s = s - a * q
        r = G.conj().T @ s
        k1 = np.vdot(r, r).real
        c = r + k1 / k * c
        k = k1
        out.append(row())
    return out


def pick_tol(ks, j):
    """A tolerance that stops after j iterations (first squared norm below it), away from every value; None if there is none."""
    lo, hi = ks[j], min(ks[:j]) if j else ks[0] * 4
    if lo * 1.7 >= hi or hi <= 0 or lo < 1e-9 * max(ks[0], 1e-30):
        return None
    return float(np.sqrt(lo * hi)) if lo > 0 else hi / 4
