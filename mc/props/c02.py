"""Replication: a BROADCAST array is the same on all ranks after every write; other arrays are written locally."""
from .common import *

BOUNDS = "all sequences of up to 3 (thorough: 4) writes out of 10, 1-5 ranks, 1-D and 2-D arrays, 4 dtypes; writes of up to 40000 elements, whole and in part"

# name -> (index in 1-D, index in 2-D, kind of value)
WRITES = {
    "all": (lambda: slice(None), lambda: slice(None), "array"),
    "scalar": (lambda: slice(None), lambda: slice(None), "scalar"),
    "head": (lambda: slice(0, 2), lambda: (slice(0, 2), slice(1, None)), "array"),
    "one": (lambda: 3, lambda: (2, 1), "scalar"),
    "back": (lambda: slice(None, None, -1), lambda: slice(None, None, -1), "array"),
    "fancy": (lambda: [0, 2], lambda: ([0, 2], [1, 0]), "array"),
    "mask": (lambda: np.array([True, False, True, False, True]), lambda: np.array([[True, False]] * 3), "scalar"),
    "step": (lambda: slice(1, None, 2), lambda: (slice(None), slice(1, None, 2)), "array"),
    "aug": (lambda: slice(None), lambda: slice(None), "aug"),
    "self": (lambda: slice(None), lambda: slice(None), "self"),
}


def index(cfg, name):
    return WRITES[name][0 if len(cfg["shape"]) == 1 else 1]()


def value(cfg, name, step, rank):
    """What rank assigns (each rank something else)."""
    ref = np.zeros(cfg["shape"])[index(cfg, name)]
    kind = WRITES[name][2]
    off = 100 * (rank + 1) + 10 * step
    if kind in ("scalar", "aug"):
        v = off + (0.5j if np.dtype(cfg["dtype"]).kind == "c" else 0)
        return v
    v = (np.arange(ref.size).reshape(ref.shape) + off).astype(cfg["dtype"])
    if np.dtype(cfg["dtype"]).kind == "c":
        v = v + 0.5j * off
    return v


class Writes(Family):
    name = "write sequences"
    policies = (ASC, DESC)

    def configs(self, tier):
        out = []
        names = list(WRITES)
        deep = 4 if tier != "quick" else 3
        for p in PARTS:
            for P in (1, 2, 3) if tier == "quick" else (1, 2, 3, 5):
                for d in range(1, deep + 1):
                    for seq in itertools.product(names, repeat=d):
                        if d == deep and (P != 3 or p != "BROADCAST"):
                            continue
                        out.append(dict(P=P, part=p, seq=seq, shape=((5,), (3, 2))[len(out) % 2],
                                        dtype=(F8, C16, I8, F4)[len(out) % 4]))
        return out

    def program(self, env, cfg):
        sh = cfg["shape"]
        if cfg["part"] == "SCATTER":  # every rank owns a block of that shape
            a = env.DistributedArray(global_shape=(sh[0] * cfg["P"],) + sh[1:], dtype=cfg["dtype"])
        else:
            a = env.DistributedArray(global_shape=sh, partition=part(env, cfg["part"]), dtype=cfg["dtype"])
        a[:] = 0
        log = []
        for k, name in enumerate(cfg["seq"]):
            i = index(cfg, name)
            if name == "aug":
                a[:] += value(cfg, name, k, env.rank)
            elif name == "self":
                a[:] = a.local_array * 2
            else:
                a[i] = value(cfg, name, k, env.rank)
            log.append(a.local_array.copy())
        c = a.copy()
        return dict(log=log, copy=c.local_array.copy(), glob=np.array(a.asarray()), part=(a.partition.name, c.partition.name))

    def oracle(self, cfg, obs):
        dt = np.dtype(cfg["dtype"])
        ms = [np.zeros(cfg["shape"], dt) for _ in obs]
        bc = cfg["part"] == "BROADCAST"
        for k, name in enumerate(cfg["seq"]):
            for r in range(cfg["P"]):
                src = 0 if bc else r
                m, i = ms[r], index(cfg, name)
                if name == "self":
                    m[i] = m * 2
                elif name == "aug":
                    # x[:] += v is a local addition (numpy, in place) followed by an assignment of the result
                    m[i] = ms[r] + value(cfg, name, k, src) if True else None
                else:
                    m[i] = value(cfg, name, k, src)
            for r, o in enumerate(obs):
                same(o["log"][k], ms[r], f"content on rank {r} after writes {cfg['seq'][:k + 1]}", dtype=dt)
        for r, o in enumerate(obs):
            same(o["copy"], ms[r], f"copy on rank {r}")
            need(o["part"] == (cfg["part"],) * 2, f"partition {o['part']}")
            same(o["glob"], np.concatenate(ms) if cfg["part"] == "SCATTER" else ms[r], f"global view on rank {r}")


class Derived(Family):
    """Arrays derived from BROADCAST arrays stay replicated even if a rank tampered with its local memory before."""

    name = "derived arrays"
    policies = (ASC, DESC)
    OPS = ("neg", "add", "sub", "mul", "scale", "conj", "copy", "zeros_like", "iadd", "isub", "ravel", "to_dist")

    def configs(self, tier):
        return [dict(P=P, op=op, dtype=dt, shape=sh, tamper=t) for P in (1, 2, 3, 4) for op in self.OPS for dt in (F8, C16)
                for sh in ((4,), (3, 2)) for t in (False, True)]

    def program(self, env, cfg):
        B = env.Partition.BROADCAST
        rk = env.rank if cfg["tamper"] else 0
        x = data(cfg["shape"], cfg["dtype"], rk)
        y = data(cfg["shape"], cfg["dtype"], 50 + rk)
        if cfg["op"] == "to_dist":
            z = env.DistributedArray.to_dist(x, partition=B)
            return dict(z=meta(z), g=np.array(z.asarray()))
        a = env.DistributedArray(cfg["shape"], partition=B, dtype=cfg["dtype"])
        b = env.DistributedArray(cfg["shape"], partition=B, dtype=cfg["dtype"])
        a.local_array[...] = x  # what the ranks hold differs: the next write through the array makes them agree again
        b.local_array[...] = y
        op = cfg["op"]
        if op == "neg":
            z = -a
        elif op == "add":
            z = a + b
        elif op == "sub":
            z = a - b
        elif op == "mul":
            z = a * b
        elif op == "scale":
            z = 3 * a
        elif op == "conj":
            z = a.conj()
        elif op == "copy":
            z = a.copy()
        elif op == "zeros_like":
            z = a.zeros_like()
        elif op == "iadd":
            a += b
            z = a
        elif op == "isub":
            a -= b
            z = a
        else:
            z = a.ravel()
        return dict(z=meta(z), g=np.array(z.asarray()))

    def oracle(self, cfg, obs):
        x = data(cfg["shape"], cfg["dtype"], 0)
        y = data(cfg["shape"], cfg["dtype"], 50)
        w = dict(neg=-x, add=x + y, sub=x - y, mul=x * y, scale=3 * x, conj=x.conj(), copy=x, zeros_like=0 * x, iadd=x + y, isub=x - y,
                 ravel=x.ravel(), to_dist=x)[cfg["op"]]
        check_global(col(obs, "z"), w, cfg["op"], partition="BROADCAST", dtype=cfg["dtype"])
        for r, o in enumerate(obs):
            same(o["g"], w, f"global view on rank {r}")


class Large(Family):
    """Large arrays, and ranks whose value (which does not matter) is of another kind, shape or type than the root's."""

    name = "large writes"
    policies = (ASC, DESC)
    SIZES = ((5,), (3000,), (4100, 3), (33000,), (70000, 2))
    IDX = ("all", "ellipsis", "half", "ints", "rows")
    OTHER = ("same", "none", "scalar", "longer", "list", "type")

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4):
            for sh in self.SIZES:
                for idx in self.IDX:
                    for ot in self.OTHER:
                        for p in PARTS:
                            if p != "BROADCAST" and (ot != "same" or P > 2):
                                continue
                            if tier == "quick" and len(sh) == 2 and sh[0] > 50000 and (P + len(out)) % 3:
                                continue
                            out.append(dict(P=P, shape=sh, idx=idx, other=ot, part=p, dtype=(F8, C16, F4, I8)[len(out) % 4], scalar=len(out) % 3 == 0))
        return out

    def index(self, cfg):
        n = cfg["shape"][0]
        return dict(all=slice(None), ellipsis=Ellipsis, half=slice(n // 2, None), ints=np.arange(0, n, 2), rows=slice(None, None, -1))[cfg["idx"]]

    def val(self, cfg, rank, k):
        ref = np.empty(cfg["shape"], dtype=bool)[self.index(cfg)]
        return (k + 7 * rank if cfg["scalar"] and k == 2 else data(ref.shape, cfg["dtype"], k + 10 * rank))

    def program(self, env, cfg):
        a = env.DistributedArray(cfg["shape"] if cfg["part"] != "SCATTER" else (cfg["shape"][0] * cfg["P"],) + cfg["shape"][1:], partition=part(env, cfg["part"]), dtype=cfg["dtype"])
        a[:] = 1
        i = self.index(cfg)
        log = []
        for k in (1, 2, 3):
            v = self.val(cfg, env.rank, k)
            if env.rank and k > 1 and cfg["part"] == "BROADCAST":
                v = dict(same=v, none=None, scalar=3, longer=np.zeros((2,) + np.shape(v)), list=[], type="x").get(cfg["other"])
            a[i] = v
            log.append(a.local_array.copy())
        return log, a.copy().local_array.copy(), (a * 2).local_array.copy()

    def oracle(self, cfg, obs):
        for r, (log, cp, twice) in enumerate(obs):
            m = np.ones(cfg["shape"], cfg["dtype"])
            for k in (1, 2, 3):
                m[self.index(cfg)] = self.val(cfg, 0 if cfg["part"] == "BROADCAST" else r, k)
                same(log[k - 1], m, f"content on rank {r} after write {k}", dtype=cfg["dtype"])
            same(cp, m, f"copy on rank {r}", dtype=cfg["dtype"])
            same(twice, 2 * m, f"product on rank {r}", dtype=cfg["dtype"])


FAMILIES = [Writes(), Derived(), Large()]
