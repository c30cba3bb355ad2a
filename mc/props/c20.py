"""Expressions of stacked operators are the expressions of their matrices, on stacked vectors."""
from .stk import *
from .c15 import blockdiag
from .c19 import ev, text

BOUNDS = ("all chains of up to 2 (a fixed quarter of those of 3; thorough: all of 3) unary operations over two stacked block-diagonals and two stacked vertical stacks, all sums of equal kinds and products of conforming ones "
          "(also of unary results), powers up to 8, one operator several times, 1-4 ranks, complex; forward and adjoint on all basis vectors and three dense vectors (one of them real); sums and chains over operators of different types; a slice of the expressions on 5-6 ranks and longer arrays; vectors scaled by 2^60 and 2^-60; vectors whose parts have different types")
UN = ("H", "T", "conj", "neg", "2*", "*(1-2j)")
SQ = UN + ("**0", "**2", "**3")
#  leaf: (kind, operators)
LEAVES = {"BD": ("diag", ("A", "D")), "BE": ("diag", ("B", "A")), "VS": ("vert", ("A", "D")), "VT": ("vert", ("B", "S")), "VM": ("vert", ("W", "V")), "BB": ("diag", ("A", "A")), "VV": ("vert", ("A", "D", "A"))}


def kind_of(e):
    """the class of the operator an expression gives"""
    if isinstance(e, str):
        return LEAVES[e][0]
    return {"H": "adj", "T": "tr", "conj": "conj", "neg": "scaled", "2*": "scaled", "*(1-2j)": "scaled"}.get(e[0], e[0])


class Algebra(Family):
    name = "stacked expressions"
    policies = (ASC, DESC, ROT)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 3],)

    def configs(self, tier):
        es = []
        for leaf, uns, depth in (("BD", SQ, 3), ("VS", UN, 3), ("VM", UN, 2), ("BE", SQ, 1)):
            for k in range(1, depth + 1):
                for ch in itertools.product(uns, repeat=k):
                    e = leaf
                    if k == 3 and tier == "quick" and sum((j + 1) * len(u) * ord(u[-1]) for j, u in enumerate(ch)) % 4:
                        continue
                    for u in ch:
                        e = (u, e)
                    es.append(e)
        first = lambda l, uns: [l] + [(u, l) for u in uns]  # noqa: E731
        for a in first("BD", SQ):
            for b in first("BE", SQ):
                es.append(("*", a, b))
                for u in ("H", "T", "conj", "2*", "**2"):
                    if tier != "quick" or (len(es) + len(u)) % 3 == 0:
                        es.append((u, ("*", a, b)))
                if kind_of(a) == kind_of(b):
                    es.append(("+", a, b))
                    if kind_of(a) == "scaled":
                        es.append(("-", a, b))
                    for u in SQ if tier != "quick" or a == "BD" else SQ[:3]:
                        es.append((u, ("+", a, b)))
        for a in first("VS", UN):
            for b in first("VT", UN):
                if kind_of(a) == kind_of(b):
                    es.append(("+", a, b))
                    if kind_of(a) == "scaled":
                        es.append(("-", a, b))
                    for u in UN:
                        es.append((u, ("+", a, b)))
                ta, tb = (isinstance(k, tuple) and k[0] in "HT" for k in (a, b))
                if ta != tb:
                    es.append(("*", a, b))
                    for u in UN if tier != "quick" else UN[:2]:
                        es.append((u, ("*", a, b)))
            for s in first("BD", SQ):
                es.append(("*", a, s) if isinstance(a, tuple) and a[0] in "HT" else ("*", s, a))
        for p in range(4, 9):  # higher powers
            es += [(f"**{p}", x) for x in ("BD", ("H", "BE"), ("+", "BD", "BE"), ("*", ("H", "VS"), "VT"))] + [("H", (f"**{p}", "BD")), ("*(1-2j)", (f"**{p}", "BE"))]
        for x in ("BB", "VV"):  # one operator object several times
            es += [x] + [(u, x) for u in UN] + [(u, (w, x)) for u in UN for w in UN] + [("+", x, x), ("-", ("neg", x), ("2*", x)), ("H", ("+", x, x)), ("*", ("H", x), x), ("**2", ("*", ("H", x), x))]
        es += [("*", "BD", "BD"), ("+", "BD", "BD"), ("+", "VS", "VS"), ("H", ("*", "BD", "BD")), ("T", ("+", "BD", "BD")), ("*", "BB", "BD"), ("+", "BB", "BE")]
        out = []
        for i, e in enumerate(es):
            if i % (41 if tier == "quick" else 3) == 0:  # more ranks, longer arrays
                P, n = ((6, 13), (5, 12), (3, 31))[i // 41 % 3]
                out.append(dict(P=P, e=e, n=n))
            for P in ((1, 2, 3, 4) if tier != "quick" else ((2, 3, 2, 1, 3, 2, 4)[i % 7],)):
                out.append(dict(P=P, e=e, n=2 * P + 1 if P > 1 else 3))
        return out

    def doms(self, cfg, name):
        kind, ops = LEAVES[name]
        ds = [domain(o, cfg["n"], cfg["P"]) for o in ops]
        return (ds[0][0] if kind == "vert" else [d[0] for d in ds]), [d[1] for d in ds]

    def sides(self, cfg):
        def f(e):
            if isinstance(e, str):
                return self.doms(cfg, e)
            if len(e) == 2:
                m, d = f(e[1])
                return (d, m) if e[0] in ("H", "T") else (m, d)
            if e[0] in "+-":
                return f(e[1])
            return f(e[2])[0], f(e[1])[1]

        return f(cfg["e"])

    def dtype(self, cfg, name, j):
        return C16

    def tol(self, cfg):
        return None

    def vecs(self, cfg, n):
        vs = vectors(n, C16, 4, False)
        if "**0" not in text(cfg["e"]):
            vs.append(data((n,), F8, 7))
        return vs

    def parts(self, k, v, o):
        return [v[a:b] for a, b in zip(o, o[1:])]

    def program(self, env, cfg):
        memo = {}

        def leaf(name):
            if name not in memo:
                kind, ops = LEAVES[name]
                memo[name] = (env.MPIStackedBlockDiag if kind == "diag" else env.MPIStackedVStack)([one(o, self.dtype(cfg, name, j)) for j, o in enumerate(ops)])
            return memo[name]

        def one(o, t):
            if (o, t) not in memo:
                memo[o, t] = make(env, o, cfg["n"], cfg["P"], t)
            return memo[o, t]

        op = ev(cfg["e"], leaf)
        sides = self.sides(cfg)
        res = []
        for fwd in (True, False):
            src = sides[0 if fwd else 1]
            lay = src if isinstance(src, list) else [src]
            o = offsets([size_of(k) for k in lay])
            ys = []
            for k, v in enumerate(self.vecs(cfg, o[-1])):
                xs = [put(env, d, p) for d, p in zip(lay, self.parts(k, v, o))]
                x = env.StackedDistributedArray(xs) if isinstance(src, list) else xs[0]
                y = op.matvec(x) if fwd and k % 2 else op @ x if fwd else op.rmatvec(x) if k % 2 else op.H * x
                ys.append([meta(a) for a in y.distarrays] if isinstance(y, env.StackedDistributedArray) else meta(y))
            res.append(ys)
        return dict(shape=tuple(int(k) for k in op.shape), res=res)

    def oracle(self, cfg, obs):
        def leaf(name):
            kind, ops = LEAVES[name]
            ms = [dense(o, cfg["n"], cfg["P"], self.dtype(cfg, name, j)) for j, o in enumerate(ops)]
            return blockdiag(ms, C16) if kind == "diag" else np.vstack(ms)

        A = ev(cfg["e"], leaf)
        m, d = self.sides(cfg)
        for r, o in enumerate(obs):
            need(o["shape"] == A.shape, f"{text(cfg['e'])} has shape {o['shape']} on rank {r}, should be {A.shape}")
        for fwd in (True, False):
            B, dst = (A, d) if fwd else (A.conj().T, m)
            for k, v in enumerate(self.vecs(cfg, B.shape[1])):
                got = [o["res"][0 if fwd else 1][k] for o in obs]
                what = f"{'forward' if fwd else 'adjoint'} of {text(cfg['e'])} on vector {k}"
                f = size_factor(v)
                src = m if fwd else d
                v = np.concatenate(self.parts(k, v, offsets([size_of(x) for x in (src if isinstance(src, list) else [src])])))
                got, want = [resized(g, f) for g in got], B @ (v / f)
                if not isinstance(dst, list):
                    check_at(dst, got, want, what, tol=self.tol(cfg))
                    continue
                o = offsets([size_of(x) for x in dst])
                for r, x in enumerate(got):
                    need(isinstance(x, list) and len(x) == len(dst), f"{what}: not a stack of {len(dst)} arrays on rank {r}")
                for j, x in enumerate(dst):
                    check_at(x, [g[j] for g in got], want[o[j]:o[j + 1]], f"{what}, part {j}", tol=self.tol(cfg))


class MixedTypes(Algebra):
    """Real and complex (or single and double) operators in one expression, applied to real vectors, each only to values of its type."""

    name = "mixed types"
    ES = (("+", "BD", "BE"), ("+", "BE", "BD"), ("H", ("+", "BD", "BE")), ("+", ("H", "BD"), ("H", "BE")), ("+", ("2*", "BD"), ("2*", "BE")), ("-", ("2*", "BD"), ("2*", "BE")), ("-", ("neg", "BE"), ("2*", "BD")),
          ("+", ("T", "BD"), ("T", "BE")), ("+", ("conj", "BD"), ("conj", "BE")), ("conj", ("+", "BD", "BE")), ("2*", ("+", "BD", "BE")), ("T", ("+", "BD", "BE")), ("+", "VS", "VT"), ("+", "VT", "VS"),
          ("H", ("+", "VS", "VT")), ("-", ("2*", "VS"), ("neg", "VT")), ("-", ("2*", "VT"), ("neg", "VS")), ("+", ("H", "VS"), ("H", "VT")), ("T", ("+", "VS", "VT")), ("conj", ("+", "VT", "VS")),
          ("2*", "BD"), ("H", "BD"), ("T", "BD"), ("conj", "BD"), ("neg", "VS"), ("H", "VS"), ("T", "VS"), ("conj", "VS"), ("H", "VM"), ("2*", "VM"))

    def configs(self, tier):
        out = []
        for i, e in enumerate(self.ES):
            for j, types in enumerate(("rc", "cr", "sd", "ds", "mix", "mox")):
                for P in (1, 2, 3, 4):
                    if tier != "quick" or P == 2 or (i + j) % 2 == P % 2:
                        out.append(dict(P=P, e=e, n=2 * P + 1 if P > 1 else 3, types=types))
        return out

    def dtype(self, cfg, name, j):
        t = cfg["types"]
        if t in ("mix", "mox"):  # within one stack
            return (F8, C16)[(j + (t == "mox") + (name in ("BE", "VT"))) % 2]
        first = name in ("BD", "VS", "VM")
        return {"r": F8, "c": C16, "s": F4, "d": F8}[t[0 if first else 1]]

    def vecs(self, cfg, n):
        return vectors(n, F8, 4, False)

    def tol(self, cfg):
        return 2e-4 if "s" in cfg["types"] else None


class MixedVectors(Algebra):
    """Vectors whose parts are of different types."""

    name = "vectors of different types"
    ES = ("BD", ("T", "BD"), ("conj", "BD"), ("H", "BD"), ("*(1-2j)", "BD"), ("T", ("conj", "BD")), ("conj", ("T", "BD")), ("T", ("T", "BD")), ("T", ("*(1-2j)", "BD")), ("+", "BD", "BE"), ("T", ("+", "BD", "BE")), ("conj", ("*", "BD", "BE")),
          ("T", ("*", "BD", "BE")), "VS", ("T", "VS"), ("conj", "VS"), ("T", ("T", "VS")), ("T", ("conj", "VS")), ("T", "VM"), ("H", "VM"), ("**2", "BD"), ("T", ("**2", "BD")), "BB", ("T", "BB"), "VV", ("T", "VV"))
    PATTERNS = ("rc", "cr", "rrc", "sc", "cs")

    def configs(self, tier):
        return [dict(P=P, e=e, n=2 * P + 1 if P > 1 else 3) for P in (1, 2, 3, 4) for e in self.ES]

    def vecs(self, cfg, n):
        return [data((n,), C16, s) for s in range(5, 10)]

    def parts(self, k, v, o):
        ps = self.PATTERNS[k]
        return [dict(c=p, r=p.real.copy(), s=p.real.astype(F4))[ps[j % len(ps)]] for j, p in enumerate(super().parts(k, v, o))]


FAMILIES = [Algebra(), MixedTypes(), MixedVectors()]
