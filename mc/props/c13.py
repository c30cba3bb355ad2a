"""MPILaplacian is the weighted sum of second derivatives of serial PyLops, along any set of axes."""
import pylops

from .linop import *

BOUNDS = ("1-5 ranks, 2-D and 3-D grids of 2-9 rows (thorough 2-13), all ordered pairs and triples of axes (also negative), weights and samplings per "
          "axis, edge, kinds, 3 dtypes; grids of equal extents; some grids on 6-8 ranks, 4-D and long ones; whole matrix, forward and adjoint; dims, sampling, weights and axes as lists, arrays and numpy numbers, types as strings and classes, thin grids, vectors scaled by 2^60 and 2^-60")


@frozen
def serial(dims, axes, weights, sampling, edge, kind, dtype):
    return pylops.Laplacian(dims, axes=axes, weights=weights, sampling=sampling, edge=edge, kind=kind, dtype=dtype).todense()


AX2 = ((0, 1), (1, 0), (-2, -1), (-1, -2), (1,), (0,))
AX3 = ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (0, 1, 2), (2, 1, 0), (1, 0, 2), (-1, -3), (-3, -2, -1), (2,))


class Lap(LinOp):
    name = "laplacian"

    def configs(self, tier):
        out = []
        i = 0
        for n in range(2, 10 if tier == "quick" else 14):
            for P in range(1, 6):
                for dims, axs in (((n, 4), AX2), ((n, 3, 4), AX3)):
                    for ax in axs:
                        for kind, edge in (("centered", False), ("centered", True), ("forward", False), ("backward", True)):
                            for mode in self.modes:
                                i += 1
                                if tier == "quick" and (i // 2) % (3 if len(dims) == 2 else 14) != (n + P) % (3 if len(dims) == 2 else 14):
                                    continue
                                k = len(ax)
                                out.append(dict(P=P, dims=dims, axes=ax, kind=kind, edge=edge, mode=mode, weights=((1, 1, 1), (2, -1, 0.5), (0.5, 3, 1))[i % 3][:k],
                                                sampling=((1, 1, 1), (0.5, 2, 3), (2, 0.25, 1))[(i // 3) % 3][:k], dtype=(F8, F8, C16, F4)[(i // 2) % 4]))
        # equal extents, samplings, weights: what may be mistaken for each other; negative samplings
        for P in (1, 2, 3):
            for dims, axs in (((7, 4, 4), AX3), ((8, 3, 3), AX3), ((7, 7), AX2), ((7, 7, 7), AX3[::3]), ((6, 3, 3, 3), ((0, 1, 2, 3), (3, 2, 1, 0), (0, 2, 3), (1, 3, 0), (1, 2, 3)))):
                for j, ax in enumerate(axs):
                    k = len(ax)
                    kind, edge = (("centered", False), ("centered", True), ("forward", False), ("backward", False))[(j + P) % 4]
                    for mode in self.modes:
                        if dims[0] * dims[-1] < 49 or (mode == "adj") == (j % 2 == 0):
                            out.append(dict(P=P, dims=dims, axes=ax, kind=kind, edge=edge, mode=mode, weights=((1, 1, 1, 1), (1, 2, 3, 4), (-1, -1, 2, 2))[(j + P) % 3][:k],
                                            sampling=((1, 1, 1, 1), (-2, 0.5, -2, 1), (2, 2, 2, 2))[(j + P // 2) % 3][:k], dtype=(F8, C16)[j % 2]))
        for P, dims, axs in ((6, (13, 3), AX2), (6, (12, 3, 4), AX3), (7, (15, 3), AX2), (8, (17, 4), AX2), (8, (24, 3, 3), AX3[::2]), (3, (7, 3, 4, 3), ((0, 3), (3, 1, 0), (-1, -4), (0, 1, 2, 3), (2, 3), (1, 0, 3, 2))), (2, (90, 5), AX2)):
            for j, ax in enumerate(axs):
                kind, edge = (("centered", False), ("centered", True), ("forward", False), ("backward", False))[(j + P) % 4]
                for mode in self.modes:
                    k = len(ax)
                    out.append(dict(P=P, dims=dims, axes=ax, kind=kind, edge=edge, mode=mode, weights=((2, -1, 0.5, 3), (1, 0.5, 3, -2))[j % 2][:k], sampling=((0.5, 2, 3, 1), (2, 0.25, 1, 3))[(j // 2) % 2][:k],
                                    dtype=(F8, C16, F4)[j % 3]))
        # axes listed several times, thin grids, arguments written in other ways
        for P in (1, 2, 3, 4):
            for dims, axs in (((3 * P + 1, 4), AX2 + ((0, 0), (1, 1), (0, 1, 1), (1, 0, 0), (0, 1, 0), (1, -1), (0, 1, 0, 1))), ((3 * P, 3, 4), AX3[:6] + ((0, 1, 1), (0, 2, 1, 2), (1, 2, 1), (2, 2), (0, -1, 2), (1, 1, 1), (1, 2, 2, 0))),
                              ((3 * P, 1), AX2), ((3 * P + 1, 2), AX2), ((3 * P, 1, 3), AX3), ((3 * P, 3, 1), AX3), ((3 * P, 1, 1), AX3)):
                for j, ax in enumerate(axs):
                    for v, (kind, edge) in enumerate((("centered", False), ("centered", True), ("forward", False), ("backward", False))):
                        if tier == "quick" and (j + v + P) % 2:
                            continue
                        for mode in self.modes:
                            k = len(ax)
                            out.append(dict(P=P, dims=dims, axes=ax, kind=kind, edge=edge, mode=mode, weights=((2, -1, 0.5, 3), (1, 0.5, 3, -2), (1, 0, 2, 1), (2., 2., 2., 2.))[(j + v) % 4][:k],
                                            sampling=((0.5, 2, 3, 1), (1, 1, 1, 1), (2, 0.25, 1, 3))[(j + v + P) % 3][:k], dtype=(F8, C16, F4)[(j + v) % 3], form=FORMS[(j + v + P // 2) % 4]))
        return out

    def build(self, env, cfg):
        fm = cfg.get("form")
        return env.MPILaplacian(dims=dressed(cfg["dims"], fm), axes=dressed(cfg["axes"], fm), weights=dressed(cfg["weights"], fm), sampling=dressed(cfg["sampling"], fm), edge=cfg["edge"],
                                kind=cfg["kind"], dtype=type_form(cfg["dtype"], fm))

    def inp(self, env, cfg, op, vec, fwd):
        n, m = cfg["dims"][0], int(np.prod(cfg["dims"][1:]))
        if cfg["edge"]:  # either the default split or one by rows
            return dist(env, vec, [k * m for k in split(n, cfg["P"])])
        return dist(env, vec)

    def serial(self, cfg):
        return serial(cfg["dims"], cfg["axes"], cfg["weights"], cfg["sampling"], cfg["edge"], cfg["kind"], cfg["dtype"])

    def may_raise(self, cfg):
        try:
            self.matrix(cfg)
        except (ValueError, IndexError):
            return True  # the serial operator rejects it
        n, m, P = cfg["dims"][0], int(np.prod(cfg["dims"][1:])), cfg["P"]
        rows = split(n, P)
        ax = [a % len(cfg["dims"]) for a in cfg["axes"]]
        if 0 in ax and (P > 1 and min(rows) < (3 if cfg["edge"] else 2) or n < 3):
            return True
        return min(rows) < 1 or not reachable(split(n * m, P), [k * m for k in rows])

    def out(self, cfg, fwd):
        m = int(np.prod(cfg["dims"][1:]))
        return dict(sizes=[k * m for k in split(cfg["dims"][0], cfg["P"])], dtype=cfg["dtype"])

    def oracle(self, cfg, obs):
        try:
            self.matrix(cfg)
        except (ValueError, IndexError):
            return
        super().oracle(cfg, obs)


FAMILIES = [Lap()]
