"""MPISecondDerivative is the second derivative of serial PyLops along the first axis."""
import pylops

from .linop import *

BOUNDS = ("1-5 ranks (thorough 1-7), first axis 1-12 (thorough 1-20) with 1-D, 2-D and 3-D grids, all kinds/orders/edges, 4 samplings (one negative), 3 dtypes, "
          "scattered and broadcast input; some grids on 6-8 ranks, 4-D and long ones; the whole matrix, forward and adjoint; one vector for every length of a piece up to 299 (thorough 529) and of a row up to 139; dims, sampling, weights and axes as lists, arrays and numpy numbers, types as strings and classes, thin grids, vectors scaled by 2^60 and 2^-60")
VARIANTS = (("forward", 0, False), ("backward", 0, False), ("centered", 0, False), ("centered", 0, True), ("forward", 0, True), ("backward", 0, True))
#  rows a rank needs so that its neighbours can be served: (forward, adjoint)
REACH = {("forward", 0): (2, 2), ("backward", 0): (2, 2), ("centered", 0): (1, 2)}


@frozen
def serial(dims, sampling, kind, edge, order, dtype):
    return pylops.SecondDerivative(dims, axis=0, sampling=sampling, kind=kind, edge=edge, dtype=dtype).todense()


class Second(LinOp):
    name = "second derivative"

    def configs(self, tier):
        out = []
        q = tier == "quick"
        i = 0
        for n in range(1, 13 if q else 21):
            for P in range(1, 6 if q else 8):
                for kind, order, edge in VARIANTS:
                    for rest in ((), (2,), (3,), (2, 2)) + (() if q else ((1, 3), (5,))):
                        for mode in self.modes:
                            if order == 5 and edge and n < 5:
                                continue  # shorter than the stencil
                            if q and rest and (rest, (n + P + (mode == "adj")) % 3) not in (((2,), 0), ((3,), 1), ((2, 2), 2)):
                                continue
                            i += 1
                            out.append(dict(P=P, dims=(n,) + rest, kind=kind, order=order, edge=edge, mode=mode, sampling=(1.0, 0.5, 3.0, -2.0)[i % 4],
                                            dtype=(F8, F8, C16, F4)[(i // 3) % 4], part="BROADCAST" if i % 7 == 0 else "SCATTER"))
        for P, dims in ((3, (37,)), (4, (50, 3)), (2, (100,)), (5, (41, 2)), (6, (13,)), (6, (12, 3)), (7, (21, 2)), (8, (17, 2)), (8, (35,)), (3, (601,)), (2, (150, 5)), (2, (7, 2, 3, 2))):
            for kind, order, edge in VARIANTS:
                for mode in self.modes:
                    out.append(dict(P=P, dims=dims, kind=kind, order=order, edge=edge, mode=mode, sampling=(0.25, 2, -0.5)[len(dims) % 3 if len(out) % 3 else P % 2], dtype=(F8, C16, F4)[(len(out) // 2) % 3 if P > 5 else 0], part="BROADCAST" if (P + len(out) // 2) % 5 == 0 else "SCATTER"))
        # every length of the pieces
        for k in range(13, 300 if q else 530):
            for v, (kind, order, edge) in enumerate(VARIANTS):
                for mode in self.modes:
                    P = 1 + (k + v) % 2 if k % 16 else 1
                    out.append(dict(P=P, dims=(P * k,), kind=kind, order=order, edge=edge, mode=mode, sampling=1.0, dtype=F8, part="SCATTER", few=True))
                    if k % 64 < 3 and k > 60 or not q:
                        out.append(dict(P=2, dims=(2 * k - 1,), kind=kind, order=order, edge=edge, mode=mode, sampling=0.5, dtype=F8, part="SCATTER", few=True))
                        out.append(dict(P=3, dims=(3 * k, 2), kind=kind, order=order, edge=edge, mode=mode, sampling=2.0, dtype=F8, part="SCATTER", few=True))
        # wide rows: few of them, of every length
        for m in range(13, 140 if q else 300):
            kind, order, edge = VARIANTS[m % len(VARIANTS)]
            for mode in self.modes:
                out.append(dict(P=1 + m % 3, dims=(15 + m % 3, m) if m % 2 else (15 + m % 3, 2, (m + 1) // 2), kind=kind, order=order, edge=edge, mode=mode, sampling=1.0, dtype=F8, part="SCATTER", few=True))
        # arguments written in other ways, thin and large grids
        for P in (1, 2, 3):
            for dims in ((6 * P + 1,), (5 * P + 1, 2), (5 * P, 1), (4 * P + 2, 1, 3), (5 * P, 2, 1)):
                for j, (kind, order, edge) in enumerate(VARIANTS):
                    for mode in self.modes:
                        out.append(dict(P=P, dims=dims, kind=kind, order=order, edge=edge, mode=mode, sampling=(2, 0.5, 1.0)[j % 3], dtype=(F8, C16, F4)[(j + P) % 3], part="SCATTER", form=FORMS[(j + P + len(dims)) % 4]))
        for j, (kind, order, edge) in enumerate(VARIANTS):
            for mode in self.modes:
                for P, dims in ((1, (140000,)), (2, (9001, 2)), (3, (40000,)), (2, (30, 1100)), (2, (70000, 3)), (4, (12, 60, 50))):
                    out.append(dict(P=P, dims=dims, kind=kind, order=order, edge=edge, mode=mode, sampling=1.0, dtype=(F8, C16, F4)[j % 3], part=("SCATTER", "BROADCAST")[j % 5 == 0], few=True))
        return out

    def few(self, cfg, v, fwd):
        op = pylops.SecondDerivative(cfg["dims"], axis=0, sampling=cfg["sampling"], kind=cfg["kind"], edge=cfg["edge"], dtype=cfg["dtype"])
        return op.matvec(v) if fwd else op.rmatvec(v)

    def build(self, env, cfg):
        fm = cfg.get("form")
        dims = cfg["dims"] if len(cfg["dims"]) > 1 or fm else cfg["dims"][0]
        return env.MPISecondDerivative(dressed(dims, fm), sampling=dressed(cfg["sampling"], fm), kind=cfg["kind"], edge=cfg["edge"], dtype=type_form(cfg["dtype"], fm))

    def inp(self, env, cfg, op, vec, fwd):
        return dist(env, vec, partition=cfg["part"])

    def serial(self, cfg):
        return serial(cfg["dims"], cfg["sampling"], cfg["kind"], cfg["edge"], cfg["order"], cfg["dtype"])

    def reach(self, cfg):
        return REACH[(cfg["kind"], cfg["order"])][cfg["mode"] == "adj"]

    def may_raise(self, cfg):
        n, m, P = cfg["dims"][0], int(np.prod(cfg["dims"][1:])), cfg["P"]
        rows = split(n, P)
        if P > 1 and min(rows) < max(self.reach(cfg), 3 if cfg["edge"] and cfg["kind"] == "centered" else 1):
            return True
        if n < 5:
            return True
        return not reachable(split(n * m, P), [k * m for k in rows])

    def out(self, cfg, fwd):
        m = int(np.prod(cfg["dims"][1:]))
        return dict(sizes=[k * m for k in split(cfg["dims"][0], cfg["P"])], dtype=cfg["dtype"])

    def oracle(self, cfg, obs):
        if cfg.get("few"):
            return super().oracle(cfg, obs)
        try:
            self.matrix(cfg)
        except (ValueError, IndexError):
            return  # the serial operator rejects it
        super().oracle(cfg, obs)


FAMILIES = [Second()]
