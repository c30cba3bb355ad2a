"""Arithmetic on distributed arrays is numpy arithmetic on the global array; layout is kept, operands are not disturbed."""
from .common import *

BOUNDS = "all sequences of up to 3 (thorough: 4) operations out of 17 on 3 arrays, 1-4 (single operations: 8) ranks, 3 partitions, 7 layouts, 4 dtypes; scalars up to the ends of the number range, NaN and infinities in arrays and scalars"
OPS = ("add", "sub", "mul", "smul", "rmul", "neg", "conj", "copy", "zeros", "iadd", "isub", "set", "addself", "mulself", "subself", "iaddself", "isubself")
LAYOUTS = (dict(shape=(6,), axis=0, sizes="bal"), dict(shape=(5,), axis=0, sizes="skew"), dict(shape=(4, 3), axis=0, sizes="bal"),
           dict(shape=(3, 5), axis=1, sizes="skew"), dict(shape=(5, 2), axis=0, sizes="holes"), dict(shape=(2, 3, 4), axis=2, sizes="bal"), dict(shape=(2500,), axis=0, sizes="bal"))


def sizes_of(kind, n, P):
    if kind == "bal":
        return split(n, P)
    if kind == "skew":
        s = [0] * P
        s[-1] = n
        for r in range(P - 1):
            if s[-1] > 1:
                s[r] += 1
                s[-1] -= 1
        return s
    s = [0] * P
    s[P // 2] = n
    return s


class Sequences(Family):
    name = "operation sequences"
    policies = (ASC, DESC)

    def configs(self, tier):
        out = []
        for d in (1, 2, 3) + ((4,) if tier != "quick" else ()):
            for i, seq in enumerate(itertools.product(OPS, repeat=d)):
                combos = [(P, p, li) for P in (1, 2, 3, 4) for p in PARTS for li in range(len(LAYOUTS))]
                if d > 1:  # every sequence meets two of the layouts; which ones rotates through all of them
                    k = 2 if d == 2 else 1
                    combos = [combos[(i * 7 + j * 31 + d) % len(combos)] for j in range(k)]
                else:
                    combos += [(P, PARTS[(i + P) % 3], (i * 3 + P) % len(LAYOUTS)) for P in (5, 6, 8)]
                for P, p, li in combos:
                    n = len(out)
                    out.append(dict(P=P, part=p, lay=li, seq=seq, dtype=(F8, C16, F4, I8)[n % 4], mask=(n // 4) % 3 == 0))
        return out

    def program(self, env, cfg):
        L = LAYOUTS[cfg["lay"]]
        sz = sizes_of(L["sizes"], L["shape"][L["axis"]], cfg["P"])
        kw = dict(mask=[r // 2 for r in range(cfg["P"])]) if cfg["mask"] else {}
        regs = [dist(env, data(L["shape"], cfg["dtype"], s), sz, L["axis"], cfg["part"], **kw) for s in (1, 2)]
        log = []
        cur = regs[0]
        other = regs[1]
        for op in cfg["seq"]:
            before = cur
            if op == "add":
                res = cur + other
            elif op == "sub":
                res = cur - other
            elif op == "mul":
                res = cur * other
            elif op == "smul":
                res = cur * 3
            elif op == "rmul":
                res = -2 * cur
            elif op == "neg":
                res = -cur
            elif op == "conj":
                res = cur.conj()
            elif op == "copy":
                res = cur.copy()
            elif op == "zeros":
                res = cur.zeros_like()
            elif op == "iadd":
                res = cur
                res += other
            elif op == "isub":
                res = cur
                res -= other
            elif op == "addself":
                res = cur + cur
            elif op == "mulself":
                res = cur * cur
            elif op == "subself":
                res = cur - cur
            elif op == "iaddself":
                res = cur
                res += cur
            elif op == "isubself":
                res = cur
                res -= cur
            else:
                res = cur
                res[:] = other.local_array
            new = res is not before
            log.append(dict(res=meta(res), prev=meta(before), other=meta(other), new=new,
                            alias=bool(new and (np.shares_memory(res.local_array, before.local_array)
                                                or np.shares_memory(res.local_array, other.local_array))),
                            alias2=bool(np.shares_memory(res.local_array, other.local_array)) if res is not other else False,
                            sub=res.sub_comm.Get_size()))
            cur = res
        return dict(log=log, first=meta(regs[0]))

    def oracle(self, cfg, obs):
        L = LAYOUTS[cfg["lay"]]
        sz = sizes_of(L["sizes"], L["shape"][L["axis"]], cfg["P"]) if cfg["part"] == "SCATTER" else None
        mask = [r // 2 for r in range(cfg["P"])] if cfg["mask"] else None
        x, y = data(L["shape"], cfg["dtype"], 1), data(L["shape"], cfg["dtype"], 2)
        kw = dict(sizes=sz, axis=L["axis"], partition=cfg["part"], dtype=cfg["dtype"], mask=mask)
        for k, op in enumerate(cfg["seq"]):
            prev = x
            x = dict(add=x + y, sub=x - y, mul=x * y, smul=x * 3, rmul=-2 * x, neg=-x, conj=x.conj(), copy=x, zeros=x * 0, iadd=x + y,
                     isub=x - y, addself=x + x, mulself=x * x, subself=x - x, iaddself=x + x, isubself=x - x, set=y)[op].astype(cfg["dtype"])
            lg = [o["log"][k] for o in obs]
            what = " ".join(cfg["seq"][:k + 1])
            inplace = op in ("iadd", "isub", "set", "iaddself", "isubself")
            check_global(col(lg, "res"), x, f"result of {what}", **kw)
            check_global(col(lg, "other"), y, f"right operand after {what}", **kw)
            if inplace:
                need(not any(col(lg, "new")), f"{op} did not return its left operand")
            else:
                need(all(col(lg, "new")), f"{op} returned one of its operands")
                check_global(col(lg, "prev"), prev, f"left operand after {what}", **kw)
            need(not any(col(lg, "alias")) and not any(col(lg, "alias2")), f"the result of {op} shares memory with an operand")
            for r, l in enumerate(lg):
                n = cfg["P"] if mask is None else mask.count(mask[r])
                need(l["sub"] == n, f"result of {what}: its group has {l['sub']} ranks on rank {r}, should be {n}")


class Mixed(Family):
    """Operands of different dtypes, numpy scalars, strided and F-ordered data, larger arrays."""

    name = "mixed operands"

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 5):
            for da, db in ((F8, F4), (F4, F8), (F8, I8), (C16, F8), (C8, F4), (C16, C8), (I8, I4)):
                for op in ("add", "sub", "mul", "iadd", "isub"):
                    out.append(dict(P=P, da=da, db=db, op=op, shape=((11,), (30, 3), (4, 26))[len(out) % 3], axis=(0, 0, 1)[len(out) % 3]))
            for sc in ("2", "-1.5", "np.float64(0.5)", "np.float32(2)", "np.int64(-3)", "1+2j", "np.array(2.)", "0", "True", "1", "1.0", "1+0j", "0.0", "-1.0", "0j", "2+0j", "np.float64(1)", "np.complex128(1)", "np.complex64(0)"):
                for side in ("mul", "rmul"):
                    if sc == "np.array(2.)" and side == "rmul" or sc.startswith("np.") and side == "rmul":
                        continue
                    for da in ((C16, C8) if "j" in sc or "complex" in sc else (F8, I8, F4, C16)):
                        out.append(dict(P=P, da=da, db=sc, op=side, shape=(9,), axis=0))
        return out

    def program(self, env, cfg):
        a = dist(env, data(cfg["shape"], cfg["da"], 3), None, cfg["axis"])
        if cfg["op"] in ("mul", "rmul") and cfg["db"] not in (F8, F4, I8, C8, C16, I4):
            s = eval(cfg["db"])
            r = a * s if cfg["op"] == "mul" else s * a
        else:
            b = dist(env, data(cfg["shape"], cfg["db"], 4), None, cfg["axis"])
            if cfg["op"] == "add":
                r = a + b
            elif cfg["op"] == "sub":
                r = a - b
            elif cfg["op"] == "mul":
                r = a * b
            elif cfg["op"] == "iadd":
                r = a
                r += b
            else:
                r = a
                r -= b
        return meta(r)

    def oracle(self, cfg, obs):
        x = data(cfg["shape"], cfg["da"], 3)
        if cfg["db"] not in (F8, F4, I8, C8, C16, I4):
            w = x * eval(cfg["db"])
        else:
            y = data(cfg["shape"], cfg["db"], 4)
            w = x + y if "add" in cfg["op"] else x - y if "sub" in cfg["op"] else x * y
        check_global(obs, w, cfg["op"], split(cfg["shape"][cfg["axis"]], cfg["P"]), cfg["axis"], dtype=cfg["da"] if cfg["op"] in ("iadd", "isub") else w.dtype)


VALUES = np.array([1., np.inf, -np.inf, np.nan, 0., -0., 1e300, 5e-324, -7., np.finfo(float).max, 2. ** -1040])


class Special(Family):
    """Values that are not finite, or close to what can be represented."""

    name = "special values"
    OPS = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, neg=lambda a, b: -a, scale=lambda a, b: a * 2, rscale=lambda a, b: 0.5 * a, zero=lambda a, b: 0 * a, conj=lambda a, b: a.conj(), copy=lambda a, b: a.copy(),
               zeros_like=lambda a, b: a.zeros_like() if hasattr(a, "zeros_like") else np.zeros_like(a), iadd=lambda a, b: a.__iadd__(b), isub=lambda a, b: a.__isub__(b), ravel=lambda a, b: a.ravel(), minus=lambda a, b: a - a, one=lambda a, b: a * 1)

    def configs(self, tier):
        return [dict(P=P, op=op, dtype=t, part=p) for P in (1, 2, 3, 4) for op in self.OPS for t in (F8, C16) for p in PARTS]

    def both(self, cfg):
        x, y = VALUES.astype(cfg["dtype"]), np.roll(VALUES, 3).astype(cfg["dtype"])
        if np.dtype(cfg["dtype"]).kind == "c":
            x.imag, y.imag = np.roll(VALUES, 5), np.roll(VALUES, 1)
        return x, y

    def program(self, env, cfg):
        x, y = self.both(cfg)
        a, b = dist(env, x, None, 0, cfg["part"]), dist(env, y, None, 0, cfg["part"])
        with np.errstate(all="ignore"):
            r = self.OPS[cfg["op"]](a, b)
        return dict(r=meta(r), b=meta(b), g=np.array(r.asarray()))

    def oracle(self, cfg, obs):
        x, y = self.both(cfg)
        with np.errstate(all="ignore"):
            w = self.OPS[cfg["op"]](x.copy(), y)
        sz = [k for k in split(len(x), cfg["P"])] if cfg["part"] == "SCATTER" else None
        for r, o in enumerate(obs):
            m = o["r"]
            need(m["part"] == cfg["part"] and m["gs"] == w.shape, f"{cfg['op']}: layout {m['part']} {m['gs']} on rank {r}")
            v = w if sz is None else pieces(w, sz)[r]
            for what, g, u in ((cfg["op"], m["loc"], v), (f"global view of {cfg['op']}", o["g"], w)):
                need(g.dtype == u.dtype and g.shape == u.shape and np.array_equal(g, u, equal_nan=True), f"{what} on rank {r} is {g}, should be {u}")
            need(np.array_equal(o["b"]["loc"], y if sz is None else pieces(y, sz)[r], equal_nan=True), f"{cfg['op']} changed its right operand on rank {r}")


FAMILIES = [Sequences(), Mixed(), Special()]
