"""MPIStackedVStack and MPIStackedBlockDiag are the vertical and block-diagonal stacks of their distributed operators."""
from .stk import *

BOUNDS = "1-4 ranks (thorough 1-5), every list of 1-2 (a fixed part of those of 3; thorough: all) operators out of a zoo of eight kinds (block diagonal, stacks, derivatives, wrapped), 3 dtypes, pairs and triples of operators of different types; whole matrix, both modes; some on 5-8 ranks, of up to 90 elements, lists of up to 7; lists of 4-17 operators"
DIAG = ("A", "R", "D", "S", "V", "H", "W")
VERT = (("A", "R", "D", "S", "Q"), ("V", "U", "W"))


class Stacked(LinOp):
    name = "stacked operators"

    def configs(self, tier):
        out = []
        i = 0
        for P in range(1, 5 if tier == "quick" else 6):
            for kind, lists in (("diag", [l for k in (1, 2, 3) for l in itertools.product(DIAG, repeat=k)]),
                                ("vert", [l for g in VERT for k in (1, 2, 3) for l in itertools.product(g, repeat=k)])):
                for l in lists:
                    i += 1
                    if len(l) == 3 and tier == "quick" and i % 8 != P or len(l) == 3 and P == 5 and i % 4:
                        continue
                    for mode in self.modes:
                        out.append(dict(P=P, kind=kind, ops=l, n=2 * P + 1 + (P == 1), mode=mode, dtype=(F8, C16, F4)[i % 3]))
        # more ranks, longer arrays, longer lists
        for P, n, ls in ((5, 11, 3), (6, 12, 3), (6, 17, 2), (7, 15, 2), (8, 19, 2), (3, 50, 2), (2, 90, 1)):
            for kind, lists in (("diag", list(itertools.product(DIAG, repeat=2)) + [DIAG, DIAG[::-1], ("A", "D", "W", "R", "A")]), ("vert", [l for g in VERT for l in itertools.product(g, repeat=2)] + [VERT[0], VERT[1], VERT[0][::-1]])):
                for j, l in enumerate(lists):
                    if (j + n) % 9 < ls * (1 if tier == "quick" else 3) or len(l) > 2 and n < 20:
                        for mode in self.modes:
                            out.append(dict(P=P, kind=kind, ops=l, n=n, mode=mode, dtype=(F8, C16, F4)[(j + P) % 3]))
        # lists of every length
        for k in range(4, 18 if tier == "quick" else 34):
            for P in (1, 2, 3):
                for kind in ("diag", "vert"):
                    g = DIAG if kind == "diag" else VERT[(k + P) % 2]
                    l = tuple(g[(j * (1 + k % 3) + P) % len(g)] for j in range(k))
                    for mode in self.modes:
                        out.append(dict(P=P, kind=kind, ops=l, n=2 * P + 1 + (P == 1), mode=mode, dtype=(F8, C16, F4)[(k + P) % 3], distinct=k % 2))
        # operators of different types in one stack, applied to real vectors
        for P in range(1, 5):
            for kind, lists in (("diag", itertools.product(("A", "R", "D", "V", "H", "W"), repeat=2)),
                                ("vert", [l for g in VERT for l in itertools.product(g, repeat=2)] + [("A", "D", "A"), ("R", "A", "D"), ("V", "W", "V")])):
                for j, l in enumerate(lists):
                    for t in ((F8, C16), (C16, F8), (F4, F8), (F8, F8, C16), (F8, C16, F8)):
                        t = t[:len(l)] if len(l) == 3 and len(t) == 3 else t + (t[1],) if len(l) == 3 else t
                        if len(t) == len(l) and (tier != "quick" or (j + len(out)) % 3 == P % 3 or P == 2):
                            for mode in self.modes:
                                out.append(dict(P=P, kind=kind, ops=l, n=2 * P + 1 + (P == 1), mode=mode, dtype="mixed", types=t))
        return out

    def dt(self, cfg):
        return cfg["dtype"] if "types" not in cfg else F4 if F4 in cfg["types"] else F8

    def types(self, cfg):
        return cfg.get("types") or (cfg["dtype"],) * len(cfg["ops"])

    def build(self, env, cfg):
        ops = [make(env, o, cfg["n"], cfg["P"], t) for o, t in zip(cfg["ops"], self.types(cfg))]
        if cfg.get("distinct") != 1 and (cfg["n"] % 2 == 0 or cfg["P"] == 3 and "types" not in cfg):  # one operator object several times
            have = {}
            ops = [have.setdefault((o, t), op) for o, t, op in zip(cfg["ops"], self.types(cfg), ops)]
        return (env.MPIStackedBlockDiag if cfg["kind"] == "diag" else env.MPIStackedVStack)(ops)

    def serial(self, cfg):
        from .c15 import blockdiag

        ms = [dense(o, cfg["n"], cfg["P"], t) for o, t in zip(cfg["ops"], self.types(cfg))]
        return blockdiag(ms, np.result_type(*self.types(cfg))) if cfg["kind"] == "diag" else np.vstack(ms)

    def doms(self, cfg, data_side):
        ds = [domain(o, cfg["n"], cfg["P"])[1 if data_side else 0] for o in cfg["ops"]]
        if cfg["kind"] == "vert" and not data_side:
            return ds[0]
        return ds

    def inp(self, env, cfg, op, vec, fwd):
        d = self.doms(cfg, not fwd)
        if isinstance(d, tuple):
            return put(env, d, vec)
        o = offsets([size_of(k) for k in d])
        return env.StackedDistributedArray([put(env, k, vec[o[j]:o[j + 1]]) for j, k in enumerate(d)])

    def observe(self, env, cfg, op, y):
        return [taken(a) for a in y.distarrays] if isinstance(y, env.StackedDistributedArray) else taken(y)

    def check_result(self, cfg, obs, want, what, fwd):
        d = self.doms(cfg, fwd)
        ts = self.types(cfg)
        if isinstance(d, tuple):
            return check_at(d, obs, want, what, np.result_type(*ts), **self.loose(cfg))
        o = offsets([size_of(k) for k in d])
        for r, x in enumerate(obs):
            need(isinstance(x, list) and len(x) == len(d), f"{what}: not a stack of {len(d)} arrays on rank {r}")
        for j, k in enumerate(d):
            check_at(k, [x[j] for x in obs], want[o[j]:o[j + 1]], f"{what}, part {j}", ts[j], **self.loose(cfg))

    def loose(self, cfg):
        return dict(tol=2e-4) if F4 in self.types(cfg) else {}

    def oracle(self, cfg, obs):
        super().oracle(cfg, obs)
        for r, o in enumerate(obs):
            need(np.dtype(o["dtype"]) == np.result_type(*self.types(cfg)), f"operator type {o['dtype']} on rank {r}")


FAMILIES = [Stacked()]
