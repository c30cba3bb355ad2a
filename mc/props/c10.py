"""What an operator computes does not depend on how its input vector is split over the ranks."""
import pylops

from .c15 import blockdiag
from .stk import *

BOUNDS = ("2-4 ranks (thorough 2-5), every split (also empty pieces) of the input of eleven operators over the ranks; dense vectors, forward and adjoint; inputs "
          "that need elements from beyond the neighbouring ranks may be rejected; single moves and reversed splits on 5, 6 and 8 ranks; vectors scaled by 2^60 and 2^-60")


class Redistribution(LinOp):
    name = "input splits"
    OPS = {  # name -> (n of the split vector per P, target extents)
        "first": ("adj", "fwd"), "first5": ("fwd", "adj"), "second": ("fwd", "adj"), "first2d": ("fwd", "adj"), "second2d": ("fwd", "adj"), "lap": ("fwd", "adj"), "grad": ("fwd",),
        "gradadj": ("adj",), "diag": ("fwd", "adj"), "vstack": ("adj",), "hstack": ("fwd",), "product": ("fwd",), "sum": ("fwd", "adj"), "power": ("fwd",)}

    def configs(self, tier):
        out = []
        i = 0
        for P in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            for name, modes in self.OPS.items():
                for mode in modes:
                    want = self.want(name, P, mode)
                    n = sum(want)
                    for sz in compositions(n, P) if P < 4 else compositions(n, P, lo=0 if n < 9 else 1):
                        i += 1
                        ok = reachable(sz, want)
                        step = 1 if P == 2 else (2 if ok else 12) if P == 3 else (5 if ok else 120) if P == 4 else (60 if ok else 4000)
                        if tier != "quick":
                            step = max(1, step // 4)
                        if i % step:
                            continue
                        out.append(dict(P=P, op=name, mode=mode, sz=sz, dtype=(F8, C16, F4)[i % 3]))
        for P in (5, 6, 8):  # one element handed on between every two neighbours, in either direction; a shift of all pieces
            for name, modes in self.OPS.items():
                for mode in modes:
                    want = self.want(name, P, mode)
                    for a in range(P):
                        for d in (1, -1):
                            sz = list(want)
                            if not 0 <= a + d < P or sz[a] < 1 or (a + d + P + len(name)) % (3 if tier == "quick" else 1):
                                continue
                            sz[a] -= 1
                            sz[a + d] += 1
                            i += 1
                            out.append(dict(P=P, op=name, mode=mode, sz=tuple(sz), dtype=(F8, C16, F4)[i % 3]))
                    i += 1
                    out.append(dict(P=P, op=name, mode=mode, sz=tuple(want[::-1]), dtype=(F8, C16, F4)[i % 3]))
        return out

    def dims(self, name, P):
        return {"first": (3 * P + 1,), "first5": (4 * P + 1,), "second": (2 * P + 1,), "first2d": (2 * P + 1, 2), "second2d": (2 * P, 2), "lap": (2 * P, 3), "grad": (2 * P + 1, 2),
                "gradadj": (2 * P + 1, 2)}[name]

    def want(self, name, P, mode):
        """the extents the operator computes on"""
        if name in ("diag", "product", "sum", "power"):
            if name in ("sum", "power"):
                return split(2 * P + 1, P)
            return [SHAPES["R"](r, 2 * P, P)[1 if mode == "fwd" else 0] for r in range(P)]
        if name == "vstack":
            return [1 + r % 2 for r in range(P)]
        if name == "hstack":
            return [1 + (r + 1) % 2 for r in range(P)]
        d = self.dims(name, P)
        return [k * int(np.prod(d[1:])) for k in split(d[0], P)]

    def build(self, env, cfg):
        P, dt = cfg["P"], np.dtype(cfg["dtype"])
        name = cfg["op"]
        mk = lambda x, n: make(env, x, n, P, cfg["dtype"])  # noqa: E731
        if name == "diag":
            return mk("R", 2 * P)
        if name == "product":
            return mk("R", 2 * P).H * mk("Q", 2 * P)
        if name == "sum":
            return mk("A", 2 * P + 1) + 2 * mk("S", 2 * P + 1)
        if name == "power":
            return mk("A", 2 * P + 1) ** 2
        if name == "vstack":
            return mk("V", 3)
        if name == "hstack":
            return mk("H", 3)
        d = self.dims(name, P)
        if name in ("first", "first2d"):
            return env.MPIFirstDerivative(d, kind="centered", edge=True, dtype=dt)
        if name == "first5":
            return env.MPIFirstDerivative(d, order=5, dtype=dt)
        if name in ("second", "second2d"):
            return env.MPISecondDerivative(d, kind="forward", dtype=dt)
        if name == "lap":
            return env.MPILaplacian(d, axes=(0, 1), weights=(2, 1), sampling=(1, 2), dtype=dt)
        return env.MPIGradient(d, kind="forward", dtype=dt)

    def serial(self, cfg):
        return ref(cfg["op"], cfg["P"], cfg["dtype"])

    def vecs(self, cfg, n):
        return [data((n,), cfg["dtype"], 5), data((n,), cfg["dtype"], 6), data((n,), cfg["dtype"], 7) * np.dtype(cfg["dtype"]).type(2.0 ** (-60 if n % 2 else 60))]

    def program(self, env, cfg):
        op = self.build(env, cfg)
        fwd = cfg["mode"] == "fwd"
        M, N = (int(k) for k in op.shape)
        res = []
        for v in self.vecs(cfg, N if fwd else M):
            if cfg["op"] == "gradadj":
                n = N
                x = env.StackedDistributedArray([dist(env, v[:n], cfg["sz"]), dist(env, v[n:], self.want("gradadj", cfg["P"], "adj"))])
            else:
                x = dist(env, v, cfg["sz"])
            y = op.matvec(x) if fwd else op.rmatvec(x)
            res.append([meta(a) for a in y.distarrays] if isinstance(y, env.StackedDistributedArray) else meta(y))
        return dict(shape=(M, N), res=res)

    def oracle(self, cfg, obs):
        A = self.matrix(cfg)
        B = A if cfg["mode"] == "fwd" else A.conj().T
        for r, o in enumerate(obs):
            need(o["shape"] == A.shape, f"operator shape {o['shape']} on rank {r}, should be {A.shape}")
        for k, v in enumerate(self.vecs(cfg, B.shape[1])):
            got = [o["res"][k] for o in obs]
            f = size_factor(v)
            got, want = [resized(g, f) for g in got], B @ (v / f)
            if isinstance(got[0], list):
                n = A.shape[1]
                for j in range(2):
                    check_global([g[j] for g in got], want[j * n:(j + 1) * n], f"component {j} of {cfg['op']} from the split {cfg['sz']}")
            else:
                bc = (cfg["op"], cfg["mode"]) in (("vstack", "adj"), ("hstack", "fwd"))
                check_global(got, want, f"{cfg['op']} from the split {cfg['sz']}", partition="BROADCAST" if bc else "SCATTER")

    def may_raise(self, cfg):
        return not reachable(cfg["sz"], self.want(cfg["op"], cfg["P"], cfg["mode"]))


@frozen
def ref(name, P, dtype):
    self = FAMILIES[0]
    if name == "diag":
        return dense("R", 2 * P, P, dtype)
    if name == "product":
        return dense("R", 2 * P, P, dtype).conj().T @ dense("Q", 2 * P, P, dtype)
    if name == "sum":
        return dense("A", 2 * P + 1, P, dtype) + 2 * dense("S", 2 * P + 1, P, dtype)
    if name == "power":
        return dense("A", 2 * P + 1, P, dtype) @ dense("A", 2 * P + 1, P, dtype)
    if name in ("vstack", "hstack"):
        return dense("V" if name == "vstack" else "H", 3, P, dtype)
    d = self.dims(name, P)
    if name in ("first", "first2d"):
        return np.asarray(pylops.FirstDerivative(d, axis=0, kind="centered", edge=True, dtype=dtype).todense())
    if name == "first5":
        return np.asarray(pylops.FirstDerivative(d, axis=0, order=5, dtype=dtype).todense())
    if name in ("second", "second2d"):
        return np.asarray(pylops.SecondDerivative(d, axis=0, kind="forward", dtype=dtype).todense())
    if name == "lap":
        return np.asarray(pylops.Laplacian(d, axes=(0, 1), weights=(2, 1), sampling=(1, 2), dtype=dtype).todense())
    return np.vstack([np.asarray(pylops.FirstDerivative(d, axis=k, kind="forward", dtype=dtype).todense()) for k in range(2)])


FAMILIES = [Redistribution()]
