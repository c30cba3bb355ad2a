"""MPIFredholm1 equals the Fredholm integral of serial PyLops on the concatenated kernel, on every rank."""
import pylops
import pylops.signalprocessing

from .linop import *

BOUNDS = "1-4 ranks, 0 or 2-4 slices per rank in every combination, nx, ny in 1-3, nz in 1-3, saveGt, usematmul, 4 dtypes, both broadcast partitions, the second operator built from one kernel, which stays unchanged; whole matrix, forward and adjoint; some on 5-8 ranks and of up to 34 slices; kernels scaled by 2^60 and 2^-60, nearly self-adjoint ones"


def slices(P, most):
    if P <= 2:
        return list(itertools.product(range(2, most + 1), repeat=P)) + ([(0, 3), (2, 0)] if P == 2 else [])
    return [(2,) * P, (3,) * P] + [tuple(2 + (k == r) for k in range(P)) for r in range(P)] + [tuple(range(2, 2 + P)), tuple(range(1 + P, 1, -1)), (0,) * (P - 1) + (2,), (2,) + (0,) * (P - 2) + (3,)]


def kernel(cfg):
    n = sum(cfg["nsl"])
    return values((n, cfg["nx"], cfg["ny"]), cfg["dtype"], cfg.get("scale"))


def values(shape, dtype, scale):
    G = data(shape, dtype, 9)
    if scale in ("near", "self"):
        G = G + G.conj().transpose(0, 2, 1)
        return G + (data(shape, dtype, 10) * 2.0 ** -18 if scale == "near" else 0)
    return G * G.dtype.type(scale or 1)


@frozen
def matrix(nsl, nx, ny, nz, dtype, scale=None):
    """block-diagonal over slices of G_k (x) I_nz"""
    G = values((sum(nsl), nx, ny), dtype, scale)
    M = np.zeros((sum(nsl) * nx * nz, sum(nsl) * ny * nz), dtype=dtype)
    for k in range(sum(nsl)):
        M[k * nx * nz:(k + 1) * nx * nz, k * ny * nz:(k + 1) * ny * nz] = np.kron(G[k], np.eye(nz))
    return M


class Fred(LinOp):
    name = "fredholm"
    tolerate_partial = True
    vec_most = 10

    def configs(self, tier):
        out = []
        i = 0
        for P in (1, 2, 3, 4):
            for nsl in slices(P, 4 if tier == "quick" else 5):
                for nx, ny, nz in itertools.product((1, 2, 3), repeat=3):
                    for saveGt in (False, True):
                        for mm in (False, True):
                            for mode in self.modes:
                                if mode == "fwd" and saveGt and tier == "quick" and (i + nx) % 2:
                                    i += 1
                                    continue
                                i += 1
                                out.append(dict(P=P, nsl=nsl, nx=nx, ny=ny, nz=nz, saveGt=saveGt, mm=mm, mode=mode, dtype=(F8, C16, F4, C16, C8)[(i // 2) % 5], part=PARTS[1 + (i // 3) % 2]))
        # more ranks, more and larger slices
        for P, nsl in ((5, (2, 3, 2, 4, 2)), (6, (3, 2, 2, 2, 4, 3)), (6, (0, 2, 3, 0, 2, 5)), (8, (2,) * 8), (2, (9, 17)), (3, (12, 2, 20))):
            for nx, ny, nz in ((2, 3, 1), (3, 2, 2), (1, 1, 3), (5, 7, 4), (7, 4, 6)):
                if nx * ny * nz * sum(nsl) > 2500:
                    continue
                for saveGt in (False, True):
                    for mm in (False, True):
                        for mode in self.modes:
                            i += 1
                            out.append(dict(P=P, nsl=nsl, nx=nx, ny=ny, nz=nz, saveGt=saveGt, mm=mm, mode=mode, dtype=(F8, C16, F4, C16, C8)[(i // 2) % 5], part=PARTS[1 + (i // 3) % 2]))
        # kernels of any size, also close to self-adjoint ones
        for P, nsl in ((1, (3,)), (2, (2, 3)), (3, (2, 0, 4))):
            for nx, ny, nz in ((2, 2, 1), (3, 3, 2), (2, 3, 2), (1, 1, 1)):
                for scale in (2.0 ** -40, 2.0 ** 40, 2.0 ** -600, "near", "self"):
                    for saveGt, mm in ((True, False), (False, False), (True, True), (False, True)):
                        for mode in self.modes:
                            i += 1
                            if scale in ("near", "self") and nx != ny:
                                continue
                            out.append(dict(P=P, nsl=nsl, nx=nx, ny=ny, nz=nz, saveGt=saveGt, mm=mm, mode=mode, dtype=(F8, C16)[(i // 2) % 2], part=PARTS[1 + (i // 3) % 2], scale=scale))
        return out

    def program(self, env, cfg):
        """the operator is the second one built from the same kernel, which has to stay as it was"""
        o = offsets(cfg["nsl"])
        G = kernel(cfg)[o[env.rank]:o[env.rank + 1]]
        was = G.copy()
        self.make(env, cfg, G)
        return dict(super().program(env, dict(cfg, G=G)), kept=G.tobytes() == was.tobytes())

    def oracle(self, cfg, obs):
        for r, o in enumerate(obs):
            need(o["kept"], f"the kernel of rank {r} was changed")
        if isinstance(cfg.get("scale"), float):
            obs = [dict(o, res=resized(o["res"], cfg["scale"])) for o in obs]
        super().oracle(cfg, obs)

    def build(self, env, cfg):
        return self.make(env, cfg, cfg["G"])

    def make(self, env, cfg, G):
        return env.MPIFredholm1(G, nz=cfg["nz"], saveGt=cfg["saveGt"], usematmul=cfg["mm"], dtype=np.dtype(cfg["dtype"]))

    def inp(self, env, cfg, op, vec, fwd):
        return dist(env, vec, partition=cfg["part"])

    def serial(self, cfg):
        return matrix(cfg["nsl"], cfg["nx"], cfg["ny"], cfg["nz"], cfg["dtype"], cfg["scale"] if isinstance(cfg.get("scale"), str) else None)

    def out(self, cfg, fwd):
        return dict(partition="BROADCAST", dtype=cfg["dtype"])


class Single(Family):
    """A rank with a single slice is rejected by every rank."""

    name = "single slices"
    policies = (ASC, DESC, ROT)

    def configs(self, tier):
        return [dict(P=P, nsl=n, saveGt=s, mm=m) for P in (1, 2, 3, 4) for n in itertools.product((1, 2) if P > 3 else (1, 2, 3), repeat=P) if 1 in n for s in (False, True) for m in (False, True)]

    def program(self, env, cfg):
        env.MPIFredholm1(data((cfg["nsl"][env.rank], 3, 2), F8, env.rank), nz=2, saveGt=cfg["saveGt"], usematmul=cfg["mm"])

    def oracle(self, cfg, obs):
        raise Bad("accepted")

    def on_raise(self, cfg, out):
        for r, e in enumerate(out.exc):
            need(e[0] == "NotImplementedError", f"rank {r} raised {e}")


FAMILIES = [Fred(), Single()]
