"""A wrapped serial operator acts on every rank as it does serially."""
import pylops

from .linop import *

BOUNDS = "1-4 ranks; all matrices shapes 1-4 x 1-4 and eight other serial operators; broadcast and unsafe-broadcast vectors; five ways of wrapping; 4 dtypes; forward and adjoint, whole matrix; some on 5-8 ranks and of up to 60 elements"
OTHER = {
    "identity": lambda dt: pylops.Identity(5, dtype=dt), "identity wide": lambda dt: pylops.Identity(3, 6, dtype=dt), "identity tall": lambda dt: pylops.Identity(6, 3, inplace=False, dtype=dt),
    "diagonal": lambda dt: pylops.Diagonal(data((6,), dt, 2), dtype=dt), "derivative": lambda dt: pylops.FirstDerivative((4, 3), axis=0, dtype=dt),
    "restriction": lambda dt: pylops.Restriction(7, [5, 0, 2], dtype=dt), "vstack": lambda dt: pylops.VStack([pylops.MatrixMult(data((2, 3), dt, 1), dtype=dt), pylops.Identity(3, dtype=dt)]),
    "flip": lambda dt: pylops.Flip((2, 3), axis=1, dtype=dt), "product": lambda dt: pylops.MatrixMult(data((2, 3), dt, 1), dtype=dt) @ pylops.MatrixMult(data((3, 4), dt, 2), dtype=dt).conj(),
    "adjoint": lambda dt: pylops.MatrixMult(data((2, 4), dt, 8), dtype=dt).H, "zero": lambda dt: pylops.Zero(2, 4, dtype=dt),
}


def op_of(cfg):
    dt = np.dtype(cfg["dtype"])
    if cfg["op"] == "matrix":
        return pylops.MatrixMult(data(cfg["shape"], dt, 3), dtype=dt)
    return OTHER[cfg["op"]](dt)


class Wrapped(LinOp):
    name = "wrapped operators"

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4) + ((5, 6) if tier != "quick" else ()):
            for i, c in enumerate([dict(op="matrix", shape=s) for s in itertools.product((1, 2, 3, 4), repeat=2)] + [dict(op=o) for o in OTHER]):
                for mode in self.modes:
                    for pt in PARTS[1:]:
                        for how in ("class", "as", "as as", "other dtype", "expr"):
                            out.append(dict(P=P, mode=mode, part=pt, how=how, dtype=(F8, C16, F4, C8)[(i + len(out) // 5) % 4], **c))
        for P, s in ((6, (5, 7)), (8, (9, 2)), (2, (30, 60)), (5, (1, 40))):
            for mode in self.modes:
                for j, how in enumerate(("class", "as", "as as", "other dtype", "expr")):
                    out.append(dict(P=P, mode=mode, part=PARTS[1 + j % 2], how=how, dtype=(F8, C16, F4, C8)[(j + P) % 4], op="matrix", shape=s))
                    out.append(dict(P=P, mode=mode, part=PARTS[1 + (j + 1) % 2], how=how, dtype=(F8, C16)[j % 2], op=list(OTHER)[(j * 3 + P) % len(OTHER)]))
        return out

    def build(self, env, cfg):
        op = op_of(cfg)
        if cfg["how"] == "class":
            return env.MPILinearOperator(op)
        if cfg["how"] == "as":
            return env.asmpilinearoperator(op)
        if cfg["how"] == "as as":
            a = env.asmpilinearoperator(op)
            b = env.asmpilinearoperator(a)
            assert a is b
            d = env.MPIBlockDiag([op])
            assert env.asmpilinearoperator(d) is d
            return a
        if cfg["how"] == "other dtype":
            return env.MPILinearOperator(Op=op, dtype=np.dtype({F4: F8, F8: C16, C8: C16, C16: C16}[cfg["dtype"]]), base_comm=env.world)
        return env.asmpilinearoperator(op).H.H

    def inp(self, env, cfg, op, vec, fwd):
        return dist(env, vec, partition=cfg["part"])

    def serial(self, cfg):
        return op_of(cfg).todense()

    def out(self, cfg, fwd):
        return dict(partition=cfg["part"], dtype=cfg["dtype"] if cfg["how"] != "other dtype" else {F4: F8, F8: C16, C8: C16, C16: C16}[cfg["dtype"]])

    def oracle(self, cfg, obs):
        super().oracle(cfg, obs)
        for o in obs:
            need(np.dtype(o["dtype"]) == np.dtype(self.out(cfg, True)["dtype"]), f"operator dtype {o['dtype']}")


class PerRank(Family):
    """Wrapping keeps the serial operator of each rank: rank-dependent operators act on UNSAFE_BROADCAST vectors locally."""

    name = "operator per rank"
    policies = (ASC, DESC)

    def configs(self, tier):
        return [dict(P=P, m=m, n=n, dtype=d) for P in (1, 2, 3, 4) for m in (1, 2, 3) for n in (1, 2, 3) for d in (F8, C16)]

    def program(self, env, cfg):
        A = data((cfg["m"], cfg["n"]), cfg["dtype"], 10 + env.rank)
        op = env.asmpilinearoperator(pylops.MatrixMult(A, dtype=np.dtype(cfg["dtype"])))
        x = dist(env, data((cfg["n"],), cfg["dtype"], 3), partition="UNSAFE_BROADCAST")
        y = dist(env, data((cfg["m"],), cfg["dtype"], 4), partition="UNSAFE_BROADCAST")
        return dict(f=meta(op.matvec(x)), a=meta(op.rmatvec(y)), b=meta(op @ dist(env, data((cfg["n"],), cfg["dtype"], 3), partition="BROADCAST")))

    def oracle(self, cfg, obs):
        x, y = data((cfg["n"],), cfg["dtype"], 3), data((cfg["m"],), cfg["dtype"], 4)
        for r, o in enumerate(obs):
            A = data((cfg["m"], cfg["n"]), cfg["dtype"], 10 + r)
            same(o["f"]["loc"], A @ x, f"forward on rank {r}")
            same(o["a"]["loc"], A.conj().T @ y, f"adjoint on rank {r}")
            same(o["b"]["loc"], data((cfg["m"], cfg["n"]), cfg["dtype"], 10) @ x, f"broadcast forward on rank {r}")


FAMILIES = [Wrapped(), PerRank()]
