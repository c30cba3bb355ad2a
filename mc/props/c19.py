"""Expressions of distributed operators (adjoint, transpose, conjugate, scaling, sum, difference, product, power) are the expressions of their matrices."""
from .stk import *

BOUNDS = ("all chains of up to 3 unary operations and all (unary of) binary combinations of (unary of) two operators, over block-diagonal, derivative, wrapped and "
          "rectangular complex operators, powers up to 16, an operator with itself, 1-4 ranks; forward and adjoint on all basis vectors and three dense vectors (one of them real); a slice of the expressions on 5-8 ranks and longer arrays; vectors scaled by 2^60 and 2^-60")
UN = ("H", "T", "conj", "neg", "2*", "*(1-2j)", "**0", "**2", "**3")


def ev(e, leaf):
    if isinstance(e, str):
        return leaf(e)
    if len(e) == 2:
        a = ev(e[1], leaf)
        u = e[0]
        if u[:2] == "**" and int(u[2:]) > 3:
            return np.linalg.matrix_power(a, int(u[2:])) if isinstance(a, np.ndarray) else a ** int(u[2:])
        if isinstance(a, np.ndarray):
            return {"H": lambda: a.conj().T, "T": lambda: a.T, "conj": lambda: a.conj(), "neg": lambda: -a, "2*": lambda: 2 * a, "*(1-2j)": lambda: a * (1 - 2j),
                    "*np": lambda: a * np.float64(0.5), "**0": lambda: np.eye(len(a)), "**1": lambda: a, "**2": lambda: a @ a, "**3": lambda: a @ a @ a}[u]()
        return {"H": lambda: a.H, "T": lambda: a.T, "conj": lambda: a.conj(), "neg": lambda: -a, "2*": lambda: 2 * a, "*(1-2j)": lambda: a * (1 - 2j),
                "*np": lambda: a * np.float64(0.5), "**0": lambda: a ** 0, "**1": lambda: a ** 1, "**2": lambda: a ** 2, "**3": lambda: a ** 3}[u]()
    a, b = ev(e[1], leaf), ev(e[2], leaf)
    if e[0] == "+":
        return a + b
    if e[0] == "-":
        return a - b
    return a @ b if isinstance(a, np.ndarray) or e[0] == "@" else a * b


def text(e):
    return e if isinstance(e, str) else f"{e[0]}({','.join(text(x) for x in e[1:])})"


class Algebra(Family):
    name = "operator expressions"
    policies = (ASC, DESC, ROT)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 3],)

    def configs(self, tier):
        out = []
        es = []
        for leaf in ("A", "W", "D"):
            for k in (1, 2, 3) if leaf == "A" else (1, 2):
                for ch in itertools.product(UN, repeat=k):
                    e = leaf
                    for u in ch:
                        e = (u, e)
                    es.append(e)
        un1 = (None,) + UN
        i = 0
        for a, b in (("A", "B"), ("A", "D"), ("W", "W"), ("S", "B")):
            for op in ("+", "-", "*"):
                for u1 in un1:
                    for u2 in un1:
                        e = (op, (u1, a) if u1 else a, (u2, b) if u2 else b)
                        if (a, b) == ("A", "B") or u1 is None or u2 is None or u1 == u2:
                            es.append(e)
                        i += 1
                        if (a, b) == ("A", "B"):
                            for k, u0 in enumerate(UN):
                                if tier != "quick" or (i + k) % 6 == 0:
                                    es.append((u0, e))
        for e in (("*", ("H", "R"), "R"), ("*", "R", ("H", "R")), ("*", ("T", "R"), ("conj", "Q")), ("+", "R", "Q"), ("-", "R", ("2*", "Q")),
                  ("*", "A", ("*", ("H", "R"), "Q")), ("*", ("*", "R", "A"), ("H", "Q")), ("H", ("*", "R", "A")), ("T", ("*", "R", "B")),
                  ("conj", ("*", "R", "B")), ("**2", ("*", ("H", "R"), "Q")), ("*(1-2j)", ("+", "R", "Q")), ("H", ("*(1-2j)", "R")), ("*", "H", "A"),
                  ("*", "V", "W"), ("*", ("H", "V"), "V"), ("*", ("H", "V"), ("H", "V")), ("+", "V", ("2*", "U")), ("H", ("+", "V", "U")), ("@", "A", "B"),
                  ("*np", "A"), ("*np", ("H", "R")), ("**1", "A"), ("**1", ("H", "W")), ("-", ("*", ("H", "V"), "V"), "W"), ("**2", ("*", ("H", "V"), "U"))):
            if e == ("*", "H", "A") or e == ("*", ("H", "V"), ("H", "V")):
                continue
            es.append(e)
        for p in range(4, 10):  # higher powers
            es += [(f"**{p}", x) for x in ("A", "W", "D", ("H", "A"), ("T", "W"), ("+", "A", "D"), ("*", "D", "A"), ("conj", "A"))] + [(u, (f"**{p}", "A")) for u in ("H", "T", "conj", "*(1-2j)", "**2")]
        es += [("**12", "D"), ("**16", "A"), ("**2", ("**5", "A"))]
        for e in (("+", "A", "A"), ("-", "A", "A"), ("*", "A", "A"), ("-", ("H", "A"), "A"), ("*", ("*", "A", "A"), ("*", "A", "A")), ("+", ("+", "A", "A"), ("+", "A", "A")), ("+", "V", "V"), ("*", ("H", "R"), "R")):
            es += [e] + [(u, e) for u in UN if "**" not in u or "A" in text(e)]  # one operator object several times
        for i, e in enumerate(es):
            if i % (29 if tier == "quick" else 3) == 0:  # more ranks, longer arrays
                P, n = ((6, 13), (5, 12), (3, 31), (8, 17))[i // 29 % 4]
                out.append(dict(P=P, e=e, n=n, dtype=C16))
            Ps = (2, 3, 1, 4) if tier != "quick" else ((2, 3, 2, 3, 1, 4)[i % 6],)
            if isinstance(e, tuple) and any(c in text(e) for c in "RQVU"):
                Ps = (1, 2, 3, 4)
            for P in Ps:
                out.append(dict(P=P, e=e, n=5 if P == 2 else 2 * P + 1 if P > 1 else 3, dtype=C16))
        return out

    def dtypes(self, cfg):
        return lambda name: cfg["dtype"]

    def vecs(self, cfg, n):
        vs = vectors(n, cfg.get("xdtype", cfg["dtype"]), 4, False)
        if "xdtype" not in cfg and "**0" not in text(cfg["e"]):  # and a real one
            vs.append(data((n,), F8, 7))
        return vs

    def leaf(self, env, cfg):
        memo = {}

        def f(name):
            if name not in memo:
                n = cfg["n"]
                memo[name] = make(env, name, n * (2 if name in "DS" and False else 1), cfg["P"], self.dtypes(cfg)(name))
            return memo[name]

        return f

    def sides(self, cfg):
        """(model, data) layout of the expression"""
        def f(e):
            if isinstance(e, str):
                return domain(e, cfg["n"], cfg["P"])
            if len(e) == 2:
                m, d = f(e[1])
                return (d, m) if e[0] in ("H", "T") else (m, d)
            if e[0] in "+-":
                return f(e[1])
            return f(e[2])[0], f(e[1])[1]

        return f(cfg["e"])

    def program(self, env, cfg):
        op = ev(cfg["e"], self.leaf(env, cfg))
        m, d = self.sides(cfg)
        res = []
        for fwd in (True, False):
            src = m if fwd else d
            ys = []
            for k, v in enumerate(self.vecs(cfg, size_of(src))):
                x = put(env, src, v)
                ys.append(meta(op.matvec(x) if fwd and k % 2 else op @ x if fwd else op.rmatvec(x) if k % 2 else op.H * x))
            res.append(ys)
        return dict(shape=tuple(int(k) for k in op.shape), dtype=str(np.dtype(op.dtype)), res=res)

    def oracle(self, cfg, obs):
        A = ev(cfg["e"], lambda name: dense(name, cfg["n"], cfg["P"], self.dtypes(cfg)(name)))
        m, d = self.sides(cfg)
        for r, o in enumerate(obs):
            need(o["shape"] == A.shape, f"{text(cfg['e'])} has shape {o['shape']} on rank {r}, should be {A.shape}")
        for fwd in (True, False):
            B, src, dst = (A, m, d) if fwd else (A.conj().T, d, m)
            for k, v in enumerate(self.vecs(cfg, size_of(src))):
                f = size_factor(v)
                check_at(dst, [resized(o["res"][0 if fwd else 1][k], f) for o in obs], B @ (v / f), f"{'forward' if fwd else 'adjoint'} of {text(cfg['e'])} on vector {k}")


class MixedTypes(Algebra):
    """Real and complex operators in one expression, applied to real vectors (each operator sees only values of its own type)."""

    name = "mixed types"
    ES = (("*", "A", "A"), ("+", "A", "B"), ("+", "B", "A"), ("-", "A", "B"), ("**2", "B"), ("2*", "B"), ("+", ("2*", "A"), ("2*", "B")), ("-", "R", "Q"), ("-", "Q", "R"))

    def configs(self, tier):
        return [dict(P=P, e=e, n=2 * P, dtype="mixed", xdtype=F8) for P in (1, 2, 3, 4) for e in self.ES]

    def dtypes(self, cfg):
        return lambda name: C16 if name in "BQ" else F8


FAMILIES = [Algebra(), MixedTypes()]
