"""MPIGradient is the gradient of serial PyLops: one derivative per axis, stacked; its adjoint their sum."""
import pylops

from .linop import *

BOUNDS = ("1-5 ranks, 1-D to 3-D grids of 2-9 rows (thorough 2-13), kinds, edge, sampling as number or per axis, 3 dtypes; equal extents and negative samplings; some grids on 6-8 ranks, 4-D and long ones; whole matrix, forward and adjoint; dims, sampling, weights and axes as lists, arrays and numpy numbers, types as strings and classes, thin grids, vectors scaled by 2^60 and 2^-60")


@frozen
def serial(dims, sampling, edge, kind, dtype):
    samp = sampling if isinstance(sampling, tuple) else (sampling,) * len(dims)
    ops = [pylops.FirstDerivative(dims, axis=k, sampling=samp[k], edge=edge, kind=kind, dtype=dtype).todense() for k in range(len(dims))]
    return np.vstack(ops)


class Grad(LinOp):
    name = "gradient"

    def configs(self, tier):
        out = []
        i = 0
        for n in range(2, 10 if tier == "quick" else 14):
            for P in range(1, 6):
                for dims in ((n,), (n, 4), (n, 3), (n, 2, 3)):
                    for kind, edge in (("centered", False), ("centered", True), ("forward", False), ("backward", False), ("backward", True)):
                        for mode in self.modes:
                            i += 1
                            if tier == "quick" and len(dims) == 3 and (i // 2) % 3:
                                continue
                            k = len(dims)
                            out.append(dict(P=P, dims=dims, kind=kind, edge=edge, mode=mode, sampling=(1, 0.5, (0.5, 2., 3.)[:k], (2., 0.25, 1.)[:k])[(i // 2) % 4],
                                            dtype=(F8, F8, C16, F4)[(i // 3) % 4]))
        for P in (1, 2, 3):  # equal extents, negative samplings
            for dims in ((7, 7), (8, 3, 3), (7, 4, 4), (6, 3, 3, 3)):
                for j, (kind, edge) in enumerate((("centered", False), ("centered", True), ("forward", False), ("backward", True))):
                    for mode in self.modes:
                        out.append(dict(P=P, dims=dims, kind=kind, edge=edge, mode=mode, sampling=(-2.0, (-0.5, 2., -3., 1.)[:len(dims)], 1, (2., 1., 1., 2.)[:len(dims)])[(j + P + len(dims)) % 4], dtype=(F8, C16)[j % 2]))
        for P, dims in ((6, (13, 3)), (6, (12,)), (7, (15, 2)), (8, (17, 2)), (8, (24,)), (3, (7, 2, 3, 2)), (2, (90, 4)), (3, (400,))):
            for j, (kind, edge) in enumerate((("centered", False), ("centered", True), ("forward", False), ("backward", False))):
                for mode in self.modes:
                    k = len(dims)
                    out.append(dict(P=P, dims=dims, kind=kind, edge=edge, mode=mode, sampling=(0.5, (0.5, 2., 3., 4.)[:k], (2., 0.25, 1., 3.)[:k])[(j + P) % 3], dtype=(F8, C16, F4)[(j + P) % 3]))
        # thin grids, arguments written in other ways
        for P in (1, 2, 3, 4):
            for dims in ((3 * P + 1,), (3 * P + 1, 2), (3 * P, 1), (3 * P, 1, 3), (3 * P, 3, 1), (2 * P + 2, 1, 1), (3 * P + 2, 4), (3 * P, 3, 1, 3)):
                for j, (kind, edge) in enumerate((("centered", False), ("centered", True), ("forward", False), ("backward", False), ("forward", True))):
                    for mode in self.modes:
                        k = len(dims)
                        out.append(dict(P=P, dims=dims, kind=kind, edge=edge, mode=mode, sampling=(0.5, (0.5, 2., 3., 4.)[:k], (2, 1, 1, 3)[:k])[(j + P) % 3], dtype=(F8, C16, F4)[(j + k) % 3], form=FORMS[(j + P + k) % 4]))
        return out

    def build(self, env, cfg):
        fm = cfg.get("form")
        return env.MPIGradient(dims=dressed(cfg["dims"], fm), sampling=dressed(cfg["sampling"], fm), edge=cfg["edge"], kind=cfg["kind"], dtype=type_form(cfg["dtype"], fm))

    def inp(self, env, cfg, op, vec, fwd):
        if fwd:
            return dist(env, vec)
        n = int(np.prod(cfg["dims"]))
        return env.StackedDistributedArray([dist(env, vec[k * n:(k + 1) * n], [j * (n // cfg["dims"][0]) for j in split(cfg["dims"][0], cfg["P"])])
                                            for k in range(len(cfg["dims"]))])

    def observe(self, env, cfg, op, y):
        if cfg["mode"] == "fwd":
            return [taken(a) for a in y.distarrays]
        return taken(y)

    def serial(self, cfg):
        return serial(cfg["dims"], cfg["sampling"], cfg["edge"], cfg["kind"], cfg["dtype"])

    def may_raise(self, cfg):
        try:
            self.matrix(cfg)
        except (ValueError, IndexError):
            return True  # the serial operator rejects it
        n, m, P = cfg["dims"][0], int(np.prod(cfg["dims"][1:])), cfg["P"]
        rows = split(n, P)
        if P > 1 and min(rows) < 2 or n < 3:
            return True
        return min(rows) < 1 or not reachable(split(n * m, P), [k * m for k in rows])

    def check_result(self, cfg, obs, want, what, fwd):
        n = int(np.prod(cfg["dims"]))
        m = n // cfg["dims"][0]
        kw = dict(sizes=[k * m for k in split(cfg["dims"][0], cfg["P"])], dtype=cfg["dtype"])
        if not fwd:
            return check_global(obs, want, what, **kw)
        for r, o in enumerate(obs):
            need(len(o) == len(cfg["dims"]), f"{what}: {len(o)} components on rank {r}, should be {len(cfg['dims'])}")
        for k in range(len(cfg["dims"])):
            check_global([o[k] for o in obs], want[k * n:(k + 1) * n], f"{what}, component {k}", **kw)

    def oracle(self, cfg, obs):
        try:
            self.matrix(cfg)
        except (ValueError, IndexError):
            return
        super().oracle(cfg, obs)


FAMILIES = [Grad()]
