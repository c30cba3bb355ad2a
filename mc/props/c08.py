"""No schedule of any public operation deadlocks, mismatches collectives or leaves communication behind."""
from .cat import *

BOUNDS = ("all interleavings, with sends buffered and collectives completing as early as MPI permits, and with neither: every work of a catalogue of the "
          "whole interface on 2 ranks, the shorter ones on 3 and 4 (thorough: all on 3 and 4, caps reported); every work on 1-6 ranks (thorough 1-8) "
          "under six extreme schedules; plain operations on every split incl. empty pieces under all schedules")
# visible operations per rank of the works that are explored on more than two ranks in the quick tier
SHORT3 = ("construct", "writes", "gather", "arithmetic", "inplace", "dots", "norms", "norms2", "masked", "ravels", "ghosts", "ghosts2", "opA", "opR", "opV", "opU", "opH", "opW",
          "fd_forward", "fd_backward", "fd_centered3", "fd_centered5", "sd_forward", "sd_backward", "sd_centered", "laplacian1", "fredholm", "rejected", "stackedarrays", "resplit", "multi")
SHORT4 = ("construct", "writes", "gather", "dots", "norms", "norms2", "masked", "ravels", "ghosts", "ghosts2", "opV", "opU", "opH", "fredholm", "fd_forward", "sd_forward")


class Explored(Family):
    name = "all schedules"
    explore = True
    real = True

    def configs(self, tier):
        out = []
        for P in (4, 3, 2):
            for w in WORKS:
                if tier == "quick" and (P == 4 and w not in SHORT4 or P == 3 and w not in SHORT3):
                    continue
                out.append(dict(P=P, work=w))
        if tier != "quick":
            out = sorted(out, key=lambda c: (c["P"] == 4 and c["work"] not in SHORT4, c["P"]))
        return out

    def program(self, env, cfg):
        run(cfg["work"], env)
        return None

    def oracle(self, cfg, obs):
        pass


class Splits(Family):
    """single operations, with every split of a small array over the ranks"""
    name = "all schedules, all splits"
    explore = True
    OPS = ("construct", "asarray", "add", "iadd", "dot", "norm2", "norminf", "norm-inf", "norm0", "copy", "ghost", "ghostf", "redist", "redistH", "ravel", "axisnorm")

    def configs(self, tier):
        out = []
        for P, n in ((2, 3), (3, 3)) if tier == "quick" else ((2, 4), (3, 4), (4, 3)):
            for c in compositions(n, P):
                for op in self.OPS:
                    out.append(dict(P=P, n=n, split=c, op=op))
        return out

    def program(self, env, cfg):
        n, s, op, P = cfg["n"], list(cfg["split"]), cfg["op"], cfg["P"]
        if op in ("ravel", "axisnorm"):
            x = dist(env, data((n, 2), F8, 1), s)
        else:
            x = dist(env, data((n,), F8, 1), s)
        res = None
        if op == "asarray":
            res = x.asarray()
        elif op == "add":
            res = (x + x).local_array
        elif op == "iadd":
            x += x
            res = x.local_array
        elif op == "dot":
            res = x.dot(x)
        elif op.startswith("norm"):
            res = x.norm(float(op[4:]) if op[4:] not in "02" else int(op[4:]))
        elif op == "axisnorm":
            res = x.norm(1, axis=0)
        elif op == "copy":
            res = x.copy().local_array
        elif op == "ravel":
            res = x.ravel().local_array
        elif op.startswith("ghost"):
            res = x.add_ghost_cells(1, None if op == "ghostf" else 1)
        elif op.startswith("redist"):
            A = make(env, "A", n, P, F8)
            res = (A.matvec(x) if op == "redist" else A.rmatvec(x)).local_array
        return res

    tolerate_partial = True

    def ok_to_fail(self, cfg):
        s = cfg["split"]
        return cfg["op"] == "ghost" and min(s) < 1 or cfg["op"] == "ghostf" and min(s[:-1]) < 1 or cfg["op"].startswith("redist") and not reachable(s, split(cfg["n"], cfg["P"]))

    def on_partial(self, cfg, out):
        if not self.ok_to_fail(cfg):
            super().on_partial(cfg, out)

    def on_raise(self, cfg, out):
        if not self.ok_to_fail(cfg):
            super().on_raise(cfg, out)

    def real_ok(self, cfg):
        return not self.ok_to_fail(cfg)

    def oracle(self, cfg, obs):
        pass


class Extreme(Family):
    name = "extreme schedules"
    policies = tuple(dict(eager=e, early=y, descending=d, order=1) for e, y in ((True, True), (True, False), (False, False)) for d in (False, True))

    def configs(self, tier):
        return [dict(P=P, work=w) for P in ((1, 2, 3, 4, 5, 6) if tier == "quick" else range(1, 9)) for w in WORKS if not (P > 4 and w in ("expression", "stackedexpr") and tier == "quick")]

    def program(self, env, cfg):
        run(cfg["work"], env)
        return None

    def oracle(self, cfg, obs):
        pass


FAMILIES = [Explored(), Splits(), Extreme()]
