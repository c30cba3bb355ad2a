"""MPIBlockDiag is the block-diagonal matrix of all local operators in rank order."""
import pylops

from .linop import *

BOUNDS = ("1-4 ranks (thorough 1-6), 1-3 local operators per rank with every combination of a set of shapes, real and complex blocks, also of different types within and across the ranks, and with a dtype argument, input split like the "
          "blocks or by default, masks; one operator object several times; seven kinds of serial operators; lists of up to 12 operators per rank; some on 5-8 ranks and some long blocks (one vector with up to 9000 elements per block); whole matrix, forward and adjoint")
#  shapes of the blocks of one rank
CHOICES = (((2, 2),), ((3, 2),), ((1, 3),), ((2, 1), (1, 2)), ((1, 1), (2, 3), (3, 1)))


#  types of the operators, in rank order (repeated), and the dtype argument; the first entry of the result type comes from any rank
MIXED = (((F8, C16), None), ((C16, F8), None), ((F8, F8, F8, C16), None), ((F4, F8), None), ((F8, F4, F4), None), ((F8,), C16), ((F4, F8), C16), ((F4,), F8),
         ((F8, F8, C8), None), ((F8, C16), C16))


def blocks(shapes, dtype, salt, types=None, shared=False):
    if shared:
        return [data(s, dtype, salt * 5) for s in shapes]
    return [data(s, types[(salt + k) % len(types)] if types else dtype, salt * 5 + k) for k, s in enumerate(shapes)]


def mixed(cfgs, start=0):
    """Operators of different types, on different ranks or the same, with and without a dtype argument"""
    out = []
    for i, c in enumerate(cfgs):
        t, arg = MIXED[(i + start) % len(MIXED)]
        out.append(dict(c, types=t, arg=arg, dtype=None))
    return out


def settle(cfg, nops):
    """the operator's type: the argument, or that of all the operators there are"""
    t = cfg["types"]
    present = [t[(r + k) % len(t)] for r, n in enumerate(nops) for k in range(n)]
    return dict(cfg, dtype=np.dtype(cfg["arg"] or np.result_type(*present)).str)


KINDS = ("matrix", "adjoint", "sum", "function", "scaled", "product", "transpose")


def serial_op(b, kind):
    """a serial operator of that matrix (small integers: exact)"""
    mult = lambda m: pylops.MatrixMult(np.ascontiguousarray(m), dtype=b.dtype)  # noqa: E731
    if kind == "adjoint":
        return mult(b.conj().T).H
    if kind == "transpose":
        return mult(b.T).T
    if kind == "sum":
        return mult(b - 1) + mult(np.ones_like(b))
    if kind == "scaled":
        return 2 * mult(b / 2)
    if kind == "product":
        return mult(b) * pylops.Identity(b.shape[1], dtype=b.dtype)
    if kind == "function":
        return pylops.FunctionOperator(lambda x: b @ x, lambda y: b.conj().T @ y, *b.shape, dtype=b.dtype)
    return mult(b)


def matrixmults(bs, kinds=None, salt=0, shared=False):
    if shared:  # one operator object for all the blocks of a shape
        have = {}
        return [have.setdefault(b.shape, op) for b, op in zip(bs, matrixmults(bs, kinds, salt))]
    return [serial_op(b, kinds[(salt + k) % len(kinds)] if kinds else "matrix") for k, b in enumerate(bs)]


def wide(choices, tier):
    """more ranks: a rotating choice of what every rank has"""
    for P in (5, 6, 7, 8):
        for k in range(4 if tier == "quick" else 12):
            yield P, k, tuple(choices[(r * (1 + k % 3) + k) % len(choices)] for r in range(P))


def many(shape_of):
    """long lists of operators on all ranks or one: (P, per-rank shapes, types or None)"""
    for P in (1, 2, 3):
        for n in (4, 5, 6, 7, 8, 9, 12):
            for who in ("all", "first", "last"):
                if P == 1 and who != "all":
                    continue
                yield P, tuple(tuple(shape_of(r, k) for k in range(n if who == "all" or r == (0 if who == "first" else P - 1) else 1)) for r in range(P)), n


#  types of a rank's list: only the last, or one in the middle, is wider
LONG = ((F8,) * 3 + (C16,) + (F8,) * 9, (F8,) * 5 + (C16,), (F4,) * 4 + (F8,), (F4, F4, F4, C8, F8))


def blockdiag(bs, dtype):
    M, N = sum(b.shape[0] for b in bs), sum(b.shape[1] for b in bs)
    A = np.zeros((M, N), dtype)
    i = j = 0
    for b in bs:
        A[i:i + b.shape[0], j:j + b.shape[1]] = b
        i, j = i + b.shape[0], j + b.shape[1]
    return A


class Diag(LinOp):
    name = "block diagonal"

    def configs(self, tier):
        out = []
        for P in range(1, 5 if tier == "quick" else 6):
            for i, ch in enumerate(itertools.product(range(len(CHOICES)), repeat=P)):
                if P == 4 and i % 5 != (i // 5) % 5 and tier == "quick" or P == 5 and i % 7:
                    continue
                for mode in self.modes:
                    for src in ("blocks", "default") + (("mask",) if i % 3 == 0 else ()):
                        out.append(dict(P=P, ch=tuple(CHOICES[c] for c in ch), mode=mode, src=src, dtype=(F8, C16, F4, F8, C8)[(i + len(out)) % 5]))
        # larger and repeated blocks, functional operators
        for P in range(1, 6):
            for mode in self.modes:
                for src in ("blocks", "default"):
                    out.append(dict(P=P, ch=tuple(((4 + r, 3 + r), (5, 6)) for r in range(P)), mode=mode, src=src, dtype=F8))
                    out.append(dict(P=P, ch=tuple(((3, 3),) * (1 + r % 3) for r in range(P)), mode=mode, src=src, dtype=C16))
        for P in range(1, 5):
            for i, ch in enumerate(itertools.product(range(len(CHOICES)), repeat=P)):
                if i % (1, 1, 7, 37)[P - 1] == 0:
                    for start in range(1 if P > 2 else 5):
                        out += [settle(c, [len(CHOICES[k]) for k in ch]) for c in mixed([dict(P=P, ch=tuple(CHOICES[c] for c in ch), mode=mode, src="blocks")
                                                                                          for mode in self.modes], start * 2 + i)]
        for P in (1, 2, 3, 4):  # one operator object several times
            for k, ch in enumerate((((2, 2), (2, 2)), ((3, 2), (3, 2)), ((2, 2), (1, 3), (2, 2)), ((1, 3),) * 3, ((3, 3), (3, 3), (2, 1), (2, 1), (3, 3)))):
                for kind in ("matrix", "function", "adjoint"):
                    for mode in self.modes:
                        out.append(dict(P=P, ch=tuple(ch if (r + k) % 3 else CHOICES[k] for r in range(P)), mode=mode, src="blocks", dtype=(F8, C16)[(k + P) % 2], kinds=(kind,), shared=True))
        for P, k, ch in wide(CHOICES, tier):
            for mode in self.modes:
                out.append(dict(P=P, ch=ch, mode=mode, src=("blocks", "mask", "blocks", "default")[k % 4], dtype=(F8, C16, F4)[(P + k) % 3]))
        for i, kind in enumerate(KINDS[1:] + KINDS[1:]):  # other serial operators
            for P in (1, 2, 3):
                for mode in self.modes:
                    out.append(dict(P=P, ch=tuple(CHOICES[(i + r) % 5] for r in range(P)), mode=mode, src="blocks", dtype=(F8, C16, C8)[(i + P) % 3], kinds=(kind,) if i < len(KINDS) - 1 else (kind, "matrix") + KINDS[:i % 7]))
        for i, (P, ch, n) in enumerate(many(lambda r, k: (1 + (r + 2 * k) % 3, 1 + (2 * r + k) % 3))):
            for mode in self.modes:
                out.append(dict(P=P, ch=ch, mode=mode, src="blocks", dtype=(F8, C16, F4)[i % 3]))
                if n < 8:
                    out.append(settle(dict(P=P, ch=ch, mode=mode, src="blocks", types=LONG[i % 4], arg=None), [len(c) for c in ch]))
        for P, k in ((1, 9000), (2, 5000), (3, 9000)):
            for mode in self.modes:
                out.append(dict(P=P, ch=tuple(((1, k + r), (k, 1)) for r in range(P)), mode=mode, src="blocks", dtype=(F8, C16)[P % 2], few=True))
        for P in (1, 2, 3):
            for mode in self.modes:
                out.append(dict(P=P, ch=tuple(((150 + r, 130), (1, 90)) for r in range(P)), mode=mode, src="blocks", dtype=(F8, C16)[P % 2]))
        return out

    def mats(self, cfg):
        return [blocks(c, cfg["dtype"], r, cfg.get("types"), cfg.get("shared")) for r, c in enumerate(cfg["ch"])]

    def mask(self, cfg):
        return [(r + 1) // 2 for r in range(cfg["P"])] if cfg["src"] == "mask" else None

    def build(self, env, cfg):
        ops = matrixmults(self.mats(cfg)[env.rank], cfg.get("kinds"), env.rank, cfg.get("shared"))
        kw = dict(mask=self.mask(cfg)) if cfg["src"] == "mask" else {}
        if cfg.get("arg"):
            kw["dtype"] = np.dtype(cfg["arg"])
        return env.MPIBlockDiag(ops, **kw)

    def ext(self, cfg, k):
        return [sum(s[k] for s in c) for c in cfg["ch"]]

    def inp(self, env, cfg, op, vec, fwd):
        return dist(env, vec, None if cfg["src"] == "default" else self.ext(cfg, 1 if fwd else 0), **(dict(mask=self.mask(cfg)) if cfg["src"] == "mask" else {}))

    def serial(self, cfg):
        return blockdiag(sum(self.mats(cfg), []), cfg["dtype"])

    def few(self, cfg, v, fwd):
        out, i = [], 0
        for b in sum(self.mats(cfg), []):
            B = b if fwd else b.conj().T
            out.append(B @ v[i:i + B.shape[1]])
            i += B.shape[1]
        return np.concatenate(out)

    def may_raise(self, cfg):
        if cfg["src"] != "default":
            return False
        e = self.ext(cfg, 1 if cfg["mode"] == "fwd" else 0)
        return not reachable(split(sum(e), cfg["P"]), e)

    def out(self, cfg, fwd):
        return dict(sizes=self.ext(cfg, 0 if fwd else 1), dtype=cfg["dtype"], mask=self.mask(cfg))


FAMILIES = [Diag()]
