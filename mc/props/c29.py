"""Stacked arrays act like the concatenation of their (flattened) parts."""
from .common import *

BOUNDS = "all stacks of 1-3 parts out of 9 layouts, all sequences of up to 2 (thorough: 3) operations out of 16, 9 norm orders, 1-4 ranks, 4 dtypes (also mixed within a stack); some on 5-8 ranks, of up to 7 parts and 400 elements; values scaled by 2^60, 2^-60, 2^450, 2^-500"
OPS = ("add", "sub", "mul", "smul", "rmul", "neg", "conj", "copy", "iadd", "isub", "set", "addself", "mulself", "subself", "iaddself", "isubself")
ORDS = ("None", "0", "1", "2", "3", "0.5", "np.inf", "-np.inf", "1.5")
# shape, axis, split, partition
KINDS = (((7,), 0, "bal", "SCATTER"), ((4, 3), 0, "bal", "SCATTER"), ((3, 5), 1, "rev", "SCATTER"), ((6,), 0, None, "BROADCAST"), ((9,), 0, "rev", "SCATTER"),
         ((2,), 0, "bal", "SCATTER"), ((3, 2), 0, None, "UNSAFE_BROADCAST"), ((1,), 0, "bal", "SCATTER"), ((2, 3, 4), 2, "bal", "SCATTER"),
         ((400,), 0, "rev", "SCATTER"), ((3, 90), 1, "bal", "SCATTER"), ((2, 5, 3, 4), 1, "rev", "SCATTER"))  # (the last three: in few cases)


def ext(kind, P):
    shape, axis, s, p = kind
    if p != "SCATTER":
        return None
    e = split(shape[axis], P)
    return e if s == "bal" else e[::-1]


class Stacks(Family):
    name = "stacked arithmetic"
    policies = (ASC, DESC)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 2],)

    def configs(self, tier):
        stacks = [c for k in (1, 2) for c in itertools.product(range(9), repeat=k)]
        stacks += [c for i, c in enumerate(itertools.product(range(9), repeat=3)) if i % (9 if tier == "quick" else 2) == 0]
        seqs = [c for k in (1, 2) + ((3,) if tier != "quick" else ()) for c in itertools.product(OPS, repeat=k)]
        out = []
        for i, st in enumerate(stacks):
            for P in (1, 2, 3, 4):
                for j in range(3 if tier == "quick" else 12):
                    out.append(dict(P=P, st=st, seq=seqs[(i * 12 + P * 3 + j * 53) % len(seqs)], dtype=(F8, C16, F4, "mix")[(i + j + P) % 4], obs="seq"))
                out.append(dict(P=P, st=st, seq=(), dtype=(F8, C16, F4, I8, "mix")[(i + P) % 5], obs="red"))
        # more ranks, longer stacks, larger parts
        for i, (P, st) in enumerate(((5, (0, 1)), (6, (4, 2, 3)), (8, (8, 0)), (6, (0, 1, 2, 3, 4, 5, 6)), (3, (7, 5, 6, 0, 8, 1)), (2, (9, 10)), (5, (10, 3, 9)), (7, (11, 0)), (4, (11, 9, 7)))):
            for j in range(8 if tier == "quick" else 40):
                out.append(dict(P=P, st=st, seq=seqs[(i * 12 + P * 3 + j * 53) % len(seqs)], dtype=(F8, C16, F4, "mix")[(i + j + P) % 4], obs="seq"))
            for d in (F8, C16, F4, I8, "mix"):
                out.append(dict(P=P, st=st, seq=(), dtype=d, obs="red"))
        lin = [q for q in seqs if not {"mul", "mulself"} & set(q)]
        for i, st in enumerate(stacks[::7]):  # very large and very small values
            for j, f in enumerate((2.0 ** 60, 2.0 ** -60, 2.0 ** -500, 2.0 ** 450)):
                out.append(dict(P=1 + (i + j) % 4, st=st, seq=lin[(i * 5 + j * 31) % len(lin)], dtype=(F8, C16)[i % 2], obs="seq", f=f))
                out.append(dict(P=1 + (i + j) % 4, st=st, seq=(), dtype=(F8, C16)[i % 2], obs="red", f=f))
        for i, q in enumerate(seqs):
            st = stacks[(i * 17 + 5) % len(stacks)]
            out.append(dict(P=2 + i % 3, st=st, seq=q, dtype=(F8, C16, F4)[i % 3], obs="seq"))
        return out

    def dts(self, cfg):
        return [cfg["dtype"] if cfg["dtype"] != "mix" else (F8, C16, F4)[k % 3] for k in range(len(cfg["st"]))]

    def parts(self, cfg, salt):
        f = cfg.get("f", 1)
        return [data(KINDS[k][0], d, salt + 3 * j, nonzero=False) * f if f != 1 else data(KINDS[k][0], d, salt + 3 * j, nonzero=False) for j, (k, d) in enumerate(zip(cfg["st"], self.dts(cfg)))]

    def stack(self, env, cfg, salt):
        return env.StackedDistributedArray([dist(env, v, ext(KINDS[k], cfg["P"]), KINDS[k][1], KINDS[k][3]) for k, v in zip(cfg["st"], self.parts(cfg, salt))])

    def see(self, a):
        return dict(n=a.narrays, parts=[meta(a[k]) for k in range(a.narrays)], rank=a.rank, size=a.size)

    def program(self, env, cfg):
        a, b = self.stack(env, cfg, 1), self.stack(env, cfg, 2)
        if cfg["obs"] == "red":
            return dict(a=self.see(a), g=a.asarray(), dot=np.array(a.dot(b)), sq=np.array(a.dot(a)), self=np.array(b.dot(b.conj())), n={q: np.array(a.norm(eval(q))) for q in ORDS}, nd=np.array(a.norm()),
                        after=self.see(a), afterb=self.see(b))
        log, cur, other = [], a, b
        for op in cfg["seq"]:
            before = cur
            if op == "add":
                res = cur + other
            elif op == "sub":
                res = cur - other
            elif op == "mul":
                res = cur * other
            elif op == "smul":
                res = cur * 3
            elif op == "rmul":
                res = -2 * cur
            elif op == "neg":
                res = -cur
            elif op == "conj":
                res = cur.conj()
            elif op == "copy":
                res = cur.copy()
            elif op == "iadd":
                res = cur
                res += other
            elif op == "isub":
                res = cur
                res -= other
            elif op == "addself":
                res = cur + cur
            elif op == "mulself":
                res = cur * cur
            elif op == "subself":
                res = cur - cur
            elif op == "iaddself":
                res = cur
                res += cur
            elif op == "isubself":
                res = cur
                res -= cur
            else:
                res = cur
                for k in range(res.narrays):
                    res[k] = other[k].local_array
            new = res is not before
            al = any(np.shares_memory(x.local_array, y.local_array) for x in res.distarrays for z in ((other, before) if new else (other,)) for y in z.distarrays)
            log.append(dict(res=self.see(res), prev=self.see(before), other=self.see(other), new=new, alias=bool(al), g=res.asarray()))
            cur = res
        return log

    def check(self, cfg, obs, want, what):
        for r, o in enumerate(obs):
            need(o["n"] == len(want) and o["rank"] == r and o["size"] == cfg["P"], f"{what}: {o['n']} parts, rank {o['rank']} of {o['size']} on rank {r}")
        for j, k in enumerate(cfg["st"]):
            shape, axis, _, p = KINDS[k]
            check_global([o["parts"][j] for o in obs], want[j], f"{what}, part {j}", sizes=ext(KINDS[k], cfg["P"]), axis=axis, partition=p, dtype=want[j].dtype)

    def unscaled(self, cfg, obs):
        f = cfg["f"]

        def see(a):
            return dict(a, parts=[dict(m, loc=m["loc"] / f) for m in a["parts"]])

        if cfg["obs"] == "seq":
            return [[dict(l, res=see(l["res"]), prev=see(l["prev"]), other=see(l["other"]), g=l["g"] / f) for l in o] for o in obs]
        return [dict(o, a=see(o["a"]), after=see(o["after"]), afterb=see(o["afterb"]), g=o["g"] / f, nd=o["nd"] / f, n={q: v if q == "0" else v / f for q, v in o["n"].items() if abs(np.log2(f)) < 100 or q in ("None", "0", "1", "2", "0.5", "np.inf", "-np.inf")},
                     **{k: o[k] / f / f for k in ("dot", "sq", "self")}) for o in obs]

    def oracle(self, cfg, obs):
        if "f" in cfg:
            return self.oracle({k: v for k, v in cfg.items() if k != "f"}, self.unscaled(cfg, obs))
        x, y = self.parts(cfg, 1), self.parts(cfg, 2)
        cat = lambda v: np.concatenate([k.ravel() for k in v])  # noqa: E731
        if cfg["obs"] == "red":
            tol = tol_of(*self.dts(cfg))
            for nm, w in (("a", x), ("after", x), ("afterb", y)):
                self.check(cfg, col(obs, nm), w, nm)
            for nm, w in (("dot", np.dot(cat(x), cat(y))), ("sq", np.dot(cat(x), cat(x))), ("self", np.dot(cat(y), cat(y).conj())), ("nd", np.linalg.norm(cat(x)))):
                all_equal(col(obs, nm), nm)
                same(obs[0][nm], w, nm, tol=tol)
            for r, o in enumerate(obs):
                same(o["g"], cat(x), f"asarray on rank {r}")
            for q in obs[0]["n"]:
                all_equal([o["n"][q] for o in obs], f"norm({q})")
                same(obs[0]["n"][q], np.linalg.norm(cat(x), eval(q)), f"norm({q})", tol=tol)
            return
        for k, op in enumerate(cfg["seq"]):
            prev = x
            x = [dict(add=u + v, sub=u - v, mul=u * v, smul=u * 3, rmul=-2 * u, neg=-u, conj=u.conj(), copy=u, iadd=u + v, isub=u - v, addself=u + u, mulself=u * u, subself=u - u, iaddself=u + u, isubself=u - u, set=v)[op].astype(u.dtype)
                 for u, v in zip(x, y)]
            lg = [o[k] for o in obs]
            what = " ".join(cfg["seq"][:k + 1])
            self.check(cfg, col(lg, "res"), x, f"result of {what}")
            self.check(cfg, col(lg, "other"), y, f"right operand after {what}")
            if op in ("iadd", "isub", "set", "iaddself", "isubself"):
                need(not any(col(lg, "new")), f"{op} did not return its left operand")
            else:
                need(all(col(lg, "new")), f"{op} returned one of its operands")
                self.check(cfg, col(lg, "prev"), prev, f"left operand after {what}")
            need(not any(col(lg, "alias")), f"the result of {op} shares memory with an operand")
            for r, l in enumerate(lg):
                same(l["g"], cat(x), f"asarray of {what} on rank {r}")


FAMILIES = [Stacks()]
