"""A rejected call leaves no trace: the objects it was given keep their value, the ranks stay in step, and everything works afterwards."""
import pylops

from . import c06
from .sol import *

BOUNDS = ("1-4 ranks; every binary operation on every pair of layouts (partition x split x mask) that all ranks reject, every malformed call of C06 that all ranks reject, once and (ordered pairs; quick: a fixed part) one after another, "
          "every operation of stacks that differ in a part, writes that do not fit, solver setups and operator applications that are rejected; then the state of all objects and a battery of valid calls")
CAUGHT = (ValueError, IndexError, NotImplementedError, TypeError, AssertionError, AttributeError)


def exact(a, b, what):
    a, b = (a, b) if isinstance(a, list) else ([a], [b])
    need(len(a) == len(b), f"{what}: {len(a)} parts, {len(b)} before")
    for u, v in zip(a, b):
        for k in u:
            if k != "loc":
                need(u[k] == v[k], f"{what}: {k} is {u[k]}, was {v[k]} before the rejected call")
        need(u["loc"].tobytes() == v["loc"].tobytes() and u["loc"].shape == v["loc"].shape, f"{what}: the values are {u['loc']}, were {v['loc']} before the rejected call")


class Trace(Family):
    tolerate_partial = True
    policies = (ASC, DESC)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 2],)

    # -- to be given: the objects a call is made with, and the call
    def objects(self, env, cfg):
        return {}

    def call(self, env, cfg, o):
        raise NotImplementedError

    # --
    def battery(self, env, cfg):
        """valid calls of all kinds"""
        P = cfg["P"]
        n = 3 * P + 1
        x, y = data((n,), F8, 3), data((n,), F8, 4)
        a, b = dist(env, x), dist(env, y)
        c = dist(env, x, partition="BROADCAST")
        m = dist(env, x, mask=[r % 2 for r in range(P)])
        out = dict(add=meta(a + b), dot=float(a.dot(b)), norm=float(b.norm(1)), bc=meta(c * 3 - c), glob=np.array(b.asarray()), masked=float(m.norm(np.inf)), d=meta(make(env, "D", n, P, F8).rmatvec(a)), op=meta((2 * make(env, "A", n, P, F8).H).matvec(b)),
                   v=meta(make(env, "V", n, P, F8).H.matvec(make(env, "V", n, P, F8).matvec(c))))
        g = a.add_ghost_cells(cells_front=1, cells_back=1)
        out["ghost"] = np.array(g)
        return out

    def check_battery(self, cfg, obs):
        P = cfg["P"]
        n = 3 * P + 1
        x, y = data((n,), F8, 3), data((n,), F8, 4)
        check_global(col(obs, "add"), x + y, "a sum after the rejected call", split(n, P))
        check_global(col(obs, "bc"), 2 * x, "a difference of broadcast arrays after the rejected call", partition="BROADCAST")
        V = dense("V", n, P, F8)
        check_global(col(obs, "d"), dense("D", n, P, F8).T @ x, "a derivative after the rejected call")
        check_global(col(obs, "op"), 2 * dense("A", n, P, F8).T @ y, "a scaled adjoint after the rejected call")
        check_global(col(obs, "v"), V.T @ (V @ x), "a vertical stack after the rejected call", partition="BROADCAST")
        o = offsets(split(n, P))
        ps = pieces(x, split(n, P))
        for r, b in enumerate(obs):
            need(b["dot"] == float(x @ y) and b["norm"] == float(np.abs(y).sum()), f"rank {r}: dot {b['dot']} and norm {b['norm']} after the rejected call")
            same(b["glob"], y, f"global view on rank {r} after the rejected call")
            need(b["masked"] == max(np.abs(np.concatenate([p for q, p in enumerate(ps) if q % 2 == r % 2]))), f"rank {r}: masked norm {b['masked']} after the rejected call")
            same(b["ghost"], x[max(0, o[r] - 1):o[r + 1] + 1], f"ghost cells on rank {r} after the rejected call")

    def see(self, env, o):
        return {k: see(env, v) for k, v in o.items() if isinstance(v, (env.DistributedArray, env.StackedDistributedArray))}

    def program(self, env, cfg):
        o = self.objects(env, cfg)
        before = self.see(env, o)
        exc, states = [], []
        for k in range(2):
            try:
                self.call(env, cfg, o)
                exc.append(None)
            except CAUGHT as e:
                exc.append(type(e).__name__)
            states.append(self.see(env, o))
        return dict(exc=exc, before=before, states=states, bat=self.battery(env, cfg), more=self.more(env, cfg, o))

    def more(self, env, cfg, o):
        return None

    def oracle(self, cfg, obs):
        for r, o in enumerate(obs):
            need(o["exc"][0] is not None, f"accepted on rank {r}")
            need(o["exc"][1] is not None, f"rejected first, then accepted on rank {r}")
            for k in o["before"]:
                for j, after in enumerate(o["states"]):
                    exact(after[k], o["before"][k], f"{k} on rank {r}" + ", rejected again" * j)
        self.check_battery(cfg, col(obs, "bat"))
        self.check_more(cfg, obs)

    def check_more(self, cfg, obs):
        pass


class Operands(Trace):
    name = "operands"

    def configs(self, tier):
        f = c06.Operands()
        out = [c for c in f.configs(tier) if not f.valid(c) and f.everywhere(c)]
        return [c for i, c in enumerate(out) if tier != "quick" or i % 3 == 0]

    def objects(self, env, cfg):
        f = c06.Operands()
        return dict(a=f.make(env, cfg["n"], cfg["a"], 1), b=f.make(env, cfg.get("n2", cfg["n"]), cfg["b"], 2))

    def call(self, env, cfg, o):
        a, b, op = o["a"], o["b"], cfg["op"]
        if op == "iadd":
            a += b
        elif op == "isub":
            a -= b
        else:
            dict(add=a.__add__, sub=a.__sub__, mul=a.__mul__, dot=a.dot)[op](b)

    def more(self, env, cfg, o):
        a, b = o["a"], o["b"]
        return meta(a + a), meta(b * b), float(np.real(a.dot(a))), float(b.norm())

    def check_more(self, cfg, obs):
        f = c06.Operands()
        for key, k, n in (("a", 0, cfg["n"]), ("b", 1, cfg.get("n2", cfg["n"]))):
            x = data((n,), F8, 1 + k)
            check_global([o["more"][k] for o in obs], 2 * x if k == 0 else x * x, f"{key} {'+' if k == 0 else '*'} {key} after the rejected call", f._size(cfg, key) if cfg[key][0] == "SCATTER" else None, partition=cfg[key][0])
            mask = f._mask(cfg, key) or [0] * cfg["P"]
            ps = pieces(x, f._size(cfg, key) if cfg[key][0] == "SCATTER" else split(n, cfg["P"]))
            for r, o in enumerate(obs):
                g = [q for q in range(cfg["P"]) if mask[q] == mask[r]]
                v = np.concatenate([ps[q] for q in g])
                want = float(v @ v) if k == 0 else float(np.linalg.norm(v))
                need(abs(o["more"][2 + k] - want) <= 1e-9 * max(1, want), f"{'dot' if k == 0 else 'norm'} of {key} on rank {r} after the rejected call is {o['more'][2 + k]}, should be {want}")


class Calls(Trace):
    name = "malformed calls"

    def configs(self, tier):
        f = c06.Calls()
        names = [c for c in f.CODE if f.CODE[c][2]]
        out = []
        for P in (1, 2, 3, 4):
            ok = [c for c in names if P >= f.ONLY.get(c, 1)]
            out += [dict(P=P, calls=(c,)) for c in ok]
            for i, a in enumerate(ok):
                for j, b in enumerate(ok):
                    if (i * 3 + j * 7 + P) % (41 if tier == "quick" else 3) == 0:
                        out.append(dict(P=P, calls=(a, b)))
        return out

    def objects(self, env, cfg):
        n = 2 * cfg["P"] + 1
        return dict(x=dist(env, data((n,), F8, 5)), s=env.StackedDistributedArray([dist(env, data((n,), C16, 6)), dist(env, data((4,), F8, 7), partition="BROADCAST")]))

    def call(self, env, cfg, o):
        f = c06.Calls()
        for c in cfg["calls"]:
            try:
                f.program(env, dict(P=cfg["P"], call=c))
            except Exception as e:
                if type(e).__name__ not in f.CODE[c][1]:
                    raise RuntimeError(f"{type(e).__name__}: {e}")
            else:
                return
        raise ValueError("all rejected")


class Stacks(Trace):
    """Stacks whose first parts agree and whose last ones do not."""

    name = "stacks"
    OPS = ("add", "sub", "mul", "iadd", "isub", "dot")
    DIFF = ("partition", "mask", "unsafe", "shape", "length", "longer")

    def configs(self, tier):
        return [dict(P=P, op=op, diff=d, parts=k, at=at, dtype=t) for P in (1, 2, 3, 4) for op in self.OPS for d in self.DIFF for k in (2, 3, 4) for at in range(1, k) for t in (F8, C16)
                if not (op == "dot" and d == "mask" and P == 0)]

    def stack(self, env, cfg, salt, other):
        n = cfg["P"] + 3
        ps = []
        for j in range(cfg["parts"]):
            kw, size, part_ = {}, n + j, ("SCATTER", "BROADCAST")[(j + 1) % 2 if j != cfg["at"] else 0]
            if other and j == cfg["at"]:
                d = cfg["diff"]
                if d in ("partition", "unsafe"):
                    part_ = dict(partition="BROADCAST", unsafe="UNSAFE_BROADCAST")[d]
                elif d == "mask":
                    kw = dict(mask=[7] * cfg["P"])
                elif d == "shape":
                    size += cfg["P"]
                elif d == "length":
                    continue
            ps.append(dist(env, data((size,), cfg["dtype"], salt + j), None, 0, part_, **kw))
        if other and cfg["diff"] == "longer":
            ps.append(dist(env, data((n,), cfg["dtype"], salt + 9)))
        return env.StackedDistributedArray(ps)

    def objects(self, env, cfg):
        return dict(s=self.stack(env, cfg, 10, False), t=self.stack(env, cfg, 30, True))

    def call(self, env, cfg, o):
        s, t, op = o["s"], o["t"], cfg["op"]
        if op == "iadd":
            s += t
        elif op == "isub":
            s -= t
        else:
            dict(add=s.__add__, sub=s.__sub__, mul=s.__mul__, dot=s.dot)[op](t)

    def more(self, env, cfg, o):
        return float(np.real(o["s"].norm())), float(np.real(o["t"].norm(1)))

    def check_more(self, cfg, obs):
        all_equal(col(obs, "more"), "norms after the rejected call")


class Writes(Trace):
    """Values that do not fit, elements that do not exist."""

    name = "writes"
    BAD = {"longer": lambda a, n: (slice(None), np.zeros(n + 3)), "2-D": lambda a, n: (slice(None), np.zeros((2, n + 1))), "part": lambda a, n: (slice(0, 2), np.arange(3.)), "behind": lambda a, n: (10 ** 6, 1.0), "text": lambda a, n: (slice(None), "x"),
           "two indices": lambda a, n: ((0, 0), 1.0), "boolean": lambda a, n: (np.ones(n + 2, bool), 2.0), "fancy": lambda a, n: ([0, 10 ** 6], 1.0), "none": lambda a, n: (slice(None), None)}

    def configs(self, tier):
        return [dict(P=P, part=p, bad=b, dtype=t) for P in (1, 2, 3, 4) for p in PARTS for b in self.BAD for t in (F8, C16) if not (b == "none" and t)] + [
            dict(P=P, part=p, bad="todist", dtype=F8) for P in (1, 2, 3, 4) for p in PARTS[:1]]

    def objects(self, env, cfg):
        return dict(a=dist(env, data((4 * cfg["P"] + 1,), cfg["dtype"], 3), None, 0, cfg["part"]))

    def call(self, env, cfg, o):
        a = o["a"]
        if cfg["bad"] == "todist":
            env.DistributedArray.to_dist(data((5,), F8), local_shapes=[(4,)] * cfg["P"])
            return
        i, v = self.BAD[cfg["bad"]](a, a.local_shape[0])
        a[i] = v

    def more(self, env, cfg, o):
        o["a"][:] = 7
        return meta(o["a"] + o["a"])

    def check_more(self, cfg, obs):
        check_global(col(obs, "more"), np.full(4 * cfg["P"] + 1, 14, cfg["dtype"]), "the array, written after the rejected call", partition=cfg["part"])


class Solvers(Trace):
    """Solvers, operators and dot tests that reject what they are given, and then get what fits."""

    name = "solvers and operators"
    BAD = ("data", "start", "partition", "mask", "solve", "function", "matvec", "rmatvec", "matvec of a stack", "dottest", "not an operator", "sum", "power")
    SYS = ("P", "Y", "R.H*R + 40*P", "D.H*D + P")

    def configs(self, tier):
        return [dict(P=P, kind=k, sys=s, bad=b, dtype=t, n=3 * P + 1) for P in (1, 2, 3, 4) for k in ("cg", "cgls") for s in self.SYS for b in self.BAD for t in (F8, C16) if not (tier == "quick" and t == C16 and P % 2) and not (b == "partition" and s == "Y")]

    def objects(self, env, cfg):
        s = System(cfg["sys"], cfg["n"], cfg["P"], cfg["dtype"])
        op = s.build(env)
        n = s.matrix.shape[0]
        y, x0 = s.put(env, 1, data((n,), cfg["dtype"], 3)), s.put(env, 0, data((n,), cfg["dtype"], 8))
        part_ = s.sides()[0][0]
        return dict(op=op, y=y, x0=x0, long=dist(env, data((n + cfg["P"],), cfg["dtype"], 5), partition=part_), other=dist(env, data((n,), cfg["dtype"], 5), partition="BROADCAST" if part_ == "SCATTER" else "SCATTER"),
                    masked=dist(env, data((n,), cfg["dtype"], 5), partition=part_, mask=[5] * cfg["P"]), c=(env.CG if cfg["kind"] == "cg" else env.CGLS)(op))

    def call(self, env, cfg, o):
        b, c, op = cfg["bad"], o["c"], o["op"]
        f = env.cg if cfg["kind"] == "cg" else env.cgls
        if b == "data":
            c.setup(o["long"], o["x0"], niter=2)
        elif b == "start":
            c.setup(o["y"], o["long"], niter=2)
        elif b == "partition":
            op.matvec(o["other"]) if "D" not in cfg["sys"] else c.setup(o["other"], o["x0"], niter=2)
        elif b == "mask":
            c.setup(o["masked"], o["x0"], niter=2)
        elif b == "solve":
            c.solve(o["y"], o["long"], niter=3, tol=0.0)
        elif b == "function":
            f(op, o["long"], o["x0"], niter=3, tol=0.0)
        elif b == "matvec":
            op.matvec(o["long"])
        elif b == "rmatvec":
            op.H.matvec(o["long"])
        elif b == "matvec of a stack":
            (2 * op + op).rmatvec(o["long"])
        elif b == "dottest":
            env.dottest(op, o["y"], o["x0"], nr=3)
        elif b == "not an operator":
            op + 2
        elif b == "sum":
            op + make(env, "R", cfg["n"] + cfg["P"], cfg["P"], cfg["dtype"])
        else:
            op ** -2

    def more(self, env, cfg, o):
        res = o["c"].solve(o["y"], o["x0"], niter=3, tol=0.0)
        return dict(x=see(env, res[0]), cost=np.array(res[-1], dtype=float), y=meta(o["op"].matvec(o["x0"])), a=meta(o["op"].H.matvec(o["y"])))

    def check_more(self, cfg, obs):
        s = System(cfg["sys"], cfg["n"], cfg["P"], cfg["dtype"])
        A = s.matrix
        n = A.shape[0]
        y, x0 = data((n,), cfg["dtype"], 3), data((n,), cfg["dtype"], 8)
        ref = cg_ref(A, y, x0, 3) if cfg["kind"] == "cg" else cgls_ref(A, y, x0, 0.0, 3)
        x = ref[-1][0] if cfg["dtype"] == C16 else ref[-1][0].real
        m = [o["more"] for o in obs]
        s.check(0, col(m, "x"), x, "solution after the rejected call", cfg["dtype"], tol=1e-6)
        s.check(1, col(m, "y"), A @ x0, "forward after the rejected call", cfg["dtype"])
        s.check(0, col(m, "a"), A.conj().T @ y, "adjoint after the rejected call", cfg["dtype"])
        all_equal(col(m, "cost"), "costs after the rejected call")


class Wrapped(Trace):
    """Vectors that an operator rejects, given to everything built from it."""

    name = "rejected through expressions"
    FORMS = {"A": lambda A, B: A, "conj": lambda A, B: A.conj(), "T": lambda A, B: A.T, "H": lambda A, B: A.H, "conj T": lambda A, B: A.conj().T, "T conj": lambda A, B: A.T.conj(), "scaled": lambda A, B: 3 * A, "negative": lambda A, B: -A,
             "sum": lambda A, B: A + B, "sum behind": lambda A, B: B + A, "product": lambda A, B: A * B.H, "adjoint product": lambda A, B: (A * B.H).H, "power": lambda A, B: (A * B.H) ** 2, "conj sum": lambda A, B: (B + 2 * A).conj(), "T sum": lambda A, B: (B + A).T,
             "conj product": lambda A, B: (A.conj() * B.T).conj()}
    STACKED = {"VS": lambda V, W: V, "VS conj": lambda V, W: V.conj(), "VS T": lambda V, W: V.T, "VS H": lambda V, W: V.H, "VS scaled": lambda V, W: 2 * V, "VS sum": lambda V, W: (2 * V) + (2 * V), "VS product": lambda V, W: W * V, "VS conj product": lambda V, W: (W * V).conj()}
    BAD = ("partition", "length", "matrix", "stack")

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4):
            for f in list(self.FORMS) + list(self.STACKED):
                for a in ("A", "V", "H", "D", "W"):
                    if f in self.STACKED and a in "VH":
                        continue
                    for bad in self.BAD:
                        for mode in ("fwd", "adj"):
                            for t in (F8, C16):
                                if tier == "quick" and (P in (1, 3)) == (t == C16) and f not in ("conj", "T", "VS conj", "VS T"):
                                    continue
                                out.append(dict(P=P, n=2 * P + 1, f=f, atom=a, bad=bad, mode=mode, dtype=t))
        return out

    def objects(self, env, cfg):
        P, n, t, a = cfg["P"], cfg["n"], cfg["dtype"], cfg["atom"]
        A, B = make(env, a, n, P, t), make(env, a, n, P, t)
        if cfg["f"] in self.STACKED:
            V, W = env.MPIStackedVStack([A, B]), env.MPIStackedBlockDiag([A.H, A.H])
            op, stacked = self.STACKED[cfg["f"]](V, W), True
        else:
            op, stacked = self.FORMS[cfg["f"]](A, B), False
        bad = cfg["bad"]
        m = int(op.shape[1] if cfg["mode"] == "fwd" else op.shape[0])
        if bad == "partition":  # of the other kind
            side = domain(a, n, P)[0 if (cfg["mode"] == "fwd") != (cfg["f"] in ("T", "H", "conj T", "T conj", "T sum")) else 1]
            if cfg["f"] in ("product", "adjoint product", "power", "conj product"):
                side = domain(a, n, P)[1]
            x = dist(env, data((m,), t, 3), partition="SCATTER" if side[0] == "BROADCAST" else "BROADCAST")
        elif bad == "length":
            x = dist(env, data((m + 1,), t, 3), partition="SCATTER")
        elif bad == "matrix":
            x = dist(env, data((m, 2), t, 3), partition="BROADCAST")
        else:
            x = env.StackedDistributedArray([dist(env, data((m,), t, 3)), dist(env, data((2,), t, 4), partition="BROADCAST"), dist(env, data((3,), t, 5))])
        return dict(op=op, x=x)

    def call(self, env, cfg, o):
        if cfg["mode"] == "fwd":
            o["op"] @ o["x"]
        else:
            o["op"].rmatvec(o["x"])

    def oracle(self, cfg, obs):
        if not any(e for o in obs for e in o["exc"]):
            return  # this operator takes such vectors: another property's business
        super().oracle(cfg, obs)


FAMILIES = [Operands(), Calls(), Stacks(), Writes(), Solvers(), Wrapped()]
