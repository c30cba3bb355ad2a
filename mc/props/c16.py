"""MPIVStack is the vertical stack of all local operators in rank order: broadcast model in, scattered data out, and back."""
import pylops

from .linop import *
from .c15 import KINDS, LONG, blocks, many, matrixmults, mixed, settle, wide

BOUNDS = ("1-4 ranks (thorough 1-5), 1-3 local operators per rank with every combination of row counts, 1-4 columns, real and complex, also operators of different types within and across the ranks and with a dtype argument, broadcast and "
          "unsafe-broadcast model, data split like the operators or by default, also of masked groups; one operator object several times; seven kinds of serial operators; lists of up to 12 operators per rank; some on 5-8 ranks and some long ones (one vector with up to 70000 elements); whole matrix, forward and adjoint")
ROWS = ((1,), (2,), (4,), (2, 1), (1, 3, 2))


class VS(LinOp):
    name = "vertical stack"

    def configs(self, tier):
        out = []
        for P in range(1, 5 if tier == "quick" else 6):
            for i, ch in enumerate(itertools.product(range(len(ROWS)), repeat=P)):
                if P == 4 and i % 4 and tier == "quick" or P == 5 and i % 7:
                    continue
                for mode in self.modes:
                    for src in ("rows", "default") if mode == "adj" else ("BROADCAST", "UNSAFE_BROADCAST"):
                        out.append(dict(P=P, rows=tuple(ROWS[c] for c in ch), cols=1 + (i + P) % 4, mode=mode, src=src, dtype=(F8, C16, F4, F8, C8)[(i + len(out)) % 5]))
        for P in range(1, 6):
            for mode in self.modes:
                for src in ("rows", "default") if mode == "adj" else ("BROADCAST", "UNSAFE_BROADCAST"):
                    out.append(dict(P=P, rows=tuple((6, 5 + r) for r in range(P)), cols=9, mode=mode, src=src, dtype=C16))
        for P in range(1, 5):
            for i, ch in enumerate(itertools.product(range(len(ROWS)), repeat=P)):
                if i % (1, 1, 7, 37)[P - 1] == 0:
                    for start in range(1 if P > 2 else 5):
                        out += [settle(c, [len(ROWS[k]) for k in ch]) for c in mixed([dict(P=P, rows=tuple(ROWS[c] for c in ch), cols=1 + (i + P) % 4, mode=mode,
                                                                                          src="rows" if mode == "adj" else "BROADCAST") for mode in self.modes], start * 2 + i)]
        for P in (1, 2, 3, 4):  # one operator object several times
            for k, rs in enumerate(((2, 2), (1, 1, 1), (2, 3, 2), (3, 3, 1, 3), (4, 4))):
                for kind in ("matrix", "function", "adjoint"):
                    for mode in self.modes:
                        out.append(dict(P=P, rows=tuple(rs if (r + k) % 3 else ROWS[k] for r in range(P)), cols=2 + k % 3, mode=mode, src="rows" if mode == "adj" else "BROADCAST", dtype=(F8, C16)[(k + P) % 2], kinds=(kind,), shared=True))
        for P, k, rows in wide(ROWS, tier):
            for mode in self.modes:
                out.append(dict(P=P, rows=rows, cols=1 + (k + P) % 4, mode=mode, src=("rows", "default", "rows", "mask")[k] if mode == "adj" else ("BROADCAST", "UNSAFE_BROADCAST")[k % 2], dtype=(F8, C16, F4)[(P + k) % 3]))
        for i, kind in enumerate(KINDS[1:] + KINDS[1:]):  # other serial operators
            for P in (1, 2, 3):
                for mode in self.modes:
                    out.append(dict(P=P, rows=tuple(ROWS[(i + r) % 5] for r in range(P)), cols=1 + (i + P) % 4, mode=mode, src="rows" if mode == "adj" else "BROADCAST", dtype=(F8, C16, C8)[(i + P) % 3],
                                    kinds=(kind,) if i < len(KINDS) - 1 else (kind, "matrix") + KINDS[:i % 7]))
        for i, (P, rows, n) in enumerate(many(lambda r, k: 1 + (r + 2 * k) % 3)):
            for mode in self.modes:
                src = "rows" if mode == "adj" else "BROADCAST"
                out.append(dict(P=P, rows=rows, cols=2 + i % 3, mode=mode, src=src, dtype=(F8, C16, F4)[i % 3]))
                if n < 8:
                    out.append(settle(dict(P=P, rows=rows, cols=2 + i % 3, mode=mode, src=src, types=LONG[i % 4], arg=None), [len(c) for c in rows]))
        for P, k, m in ((1, 9000, 2), (2, 5000, 1), (3, 2, 9000), (2, 1, 70000)):
            for mode in self.modes:
                out.append(dict(P=P, rows=tuple((k + r, 1) for r in range(P)), cols=m, mode=mode, src="rows" if mode == "adj" else "BROADCAST", dtype=(F8, C16)[P % 2], few=True))
        for P in (1, 2, 3, 4):
            for i in range(5):  # data of masked groups: the sum is over all ranks nevertheless
                out.append(dict(P=P, rows=tuple(ROWS[(i + 2 * r) % 5] for r in range(P)), cols=3, mode="adj", src="mask", dtype=(F8, C16)[i % 2]))
            for mode in self.modes:
                out.append(dict(P=P, rows=tuple((150 + r, 1) for r in range(P)), cols=140, mode=mode, src="rows" if mode == "adj" else "BROADCAST", dtype=(F8, C16)[P % 2]))
        return out

    def mats(self, cfg):
        return [blocks([(k, cfg["cols"]) for k in rs], cfg["dtype"], r, cfg.get("types"), cfg.get("shared")) for r, rs in enumerate(cfg["rows"])]

    def build(self, env, cfg):
        return env.MPIVStack(matrixmults(self.mats(cfg)[env.rank], cfg.get("kinds"), env.rank, cfg.get("shared")), **self.kw(cfg))

    def kw(self, cfg):
        return dict(dtype=np.dtype(cfg["arg"])) if cfg.get("arg") else {}

    def ext(self, cfg):
        return [sum(r) for r in cfg["rows"]]

    def inp(self, env, cfg, op, vec, fwd):
        if fwd:
            return dist(env, vec, partition=cfg["src"])
        kw = dict(mask=[(r + 1) // 2 for r in range(cfg["P"])]) if cfg["src"] == "mask" else {}
        return dist(env, vec, None if cfg["src"] == "default" else self.ext(cfg), **kw)

    def serial(self, cfg):
        return np.vstack(sum(self.mats(cfg), []))

    def may_raise(self, cfg):
        e = self.ext(cfg)
        return cfg["mode"] == "adj" and cfg["src"] == "default" and not reachable(split(sum(e), cfg["P"]), e)

    def out(self, cfg, fwd):
        return dict(sizes=self.ext(cfg), dtype=cfg["dtype"]) if fwd else dict(partition="BROADCAST", dtype=cfg["dtype"])


FAMILIES = [VS()]
