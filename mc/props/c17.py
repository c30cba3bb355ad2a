"""MPIHStack is the horizontal stack of all local operators in rank order: scattered model in, broadcast data out, and back."""
import pylops

from .linop import *
from .c15 import matrixmults
from .c16 import VS

BOUNDS = ("1-4 ranks (thorough 1-5), 1-3 local operators per rank with every combination of column counts, 1-4 rows, real and complex, also operators of different types within and across the ranks and with a dtype argument, broadcast and "
          "unsafe-broadcast data, model split like the operators or by default, also of masked groups; one operator object several times; seven kinds of serial operators; lists of up to 12 operators per rank; some on 5-8 ranks and some long ones (one vector with up to 70000 elements); whole matrix, forward and adjoint")


class HS(VS):
    name = "horizontal stack"

    def configs(self, tier):
        flip = dict(fwd="adj", adj="fwd")
        return [dict(c, mode=flip[c["mode"]]) for c in super().configs(tier)]

    def build(self, env, cfg):
        return env.MPIHStack(matrixmults([np.ascontiguousarray(b.T) for b in self.mats(cfg)[env.rank]], cfg.get("kinds"), env.rank, cfg.get("shared")), **self.kw(cfg))

    def inp(self, env, cfg, op, vec, fwd):
        return super().inp(env, cfg, op, vec, not fwd)

    def serial(self, cfg):
        return super().serial(cfg).T

    def may_raise(self, cfg):
        e = self.ext(cfg)
        return cfg["mode"] == "fwd" and cfg["src"] == "default" and not reachable(split(sum(e), cfg["P"]), e)

    def out(self, cfg, fwd):
        return super().out(cfg, not fwd)


FAMILIES = [HS()]
