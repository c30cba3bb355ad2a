"""Layout of distributed arrays, to_dist/asarray round trip."""
from .common import *

BOUNDS = "1 to 6 (quick) / 8 ranks, 1-3 dimensions, extents 1-13, every axis, some 4-D and long arrays, arrays without elements, NaN, infinities, -0 and subnormal numbers, every split of up to 6 elements over up to 4 ranks"
SHAPES = [(1,), (2,), (3,), (5,), (7,), (12,), (13,), (4, 3), (3, 5), (1, 4), (7, 2), (2, 3, 4), (3, 2, 2), (5, 1, 3)]


def expect(cfg):
    n = cfg["shape"][cfg["axis"]]
    return split(n, cfg["P"]) if cfg.get("sizes") is None else list(cfg["sizes"])


class Layout(Family):
    name = "layout"

    def configs(self, tier):
        out = []
        for P in range(1, 7 if tier == "quick" else 9):
            for shape in SHAPES:
                for axis in list(range(len(shape))) + [-1]:
                    for p in PARTS:
                        out.append(dict(P=P, shape=shape, axis=axis, part=p, dtype=(F8, C16, F4, I8)[(P + axis + len(out)) % 4]))
        for P, shape, axis in ((8, (13,), 0), (8, (3, 17), 1), (7, (20, 2), 0), (3, (2, 2, 2, 5), 3), (2, (3, 2, 4, 2), 2), (4, (6000,), 0), (3, (2, 3001), 1), (2, (70000,), 0)):
            for p in PARTS:
                out.append(dict(P=P, shape=shape, axis=axis, part=p, dtype=(F8, C16, I4, C8, "bool", "int16")[len(out) % 6]))
        for P in (1, 2, 3, 5):  # nothing in it; things that are not numbers
            for k, shape in enumerate(((0,), (0, 3), (3, 0), (2, 0, 2), (9,), (4, 3))):
                for axis in range(len(shape)):
                    for p in PARTS:
                        out.append(dict(P=P, shape=shape, axis=axis, part=p, dtype=(F8, C16, F4, C8)[(k + P) % 4], special=True))
        for P, shape, axis in ((3, (300, 100), 1), (4, (100, 301), 0), (2, (20, 30, 40), 1), (6, (5000, 3), 0)):
            for p in PARTS[:2]:
                out.append(dict(P=P, shape=shape, axis=axis, part=p, dtype=(F8, C16)[P % 2]))
        return out

    def content(self, cfg):
        x = distinct(cfg["shape"], cfg["dtype"])
        if cfg.get("special"):
            f = x.reshape(-1) if x.size else x.copy()
            for k, v in enumerate((np.nan, np.inf, -0.0, -np.inf, np.finfo(x.dtype).tiny / 4, np.finfo(x.dtype).max)):
                f[k::7] = v
        return x

    def program(self, env, cfg):
        x = self.content(cfg)
        res = {}
        gs = cfg["shape"] if len(cfg["shape"]) > 1 else cfg["shape"][0]
        a = env.DistributedArray(global_shape=gs, partition=part(env, cfg["part"]), axis=cfg["axis"], dtype=cfg["dtype"])
        res["shapes"] = [tuple(map(int, s)) for s in a.local_shapes]
        if cfg["part"] == "SCATTER":
            a[:] = pieces(x, split(x.shape[cfg["axis"]], cfg["P"]), cfg["axis"])[env.rank]
        else:
            a[:] = x
        res["manual"] = meta(a)
        res["manual_global"] = np.array(a.asarray())
        keep = x.copy()
        b = env.DistributedArray.to_dist(x, partition=part(env, cfg["part"]), axis=cfg["axis"])
        res["dist"] = meta(b)
        g = b.asarray()
        res["dist_global"] = np.array(g)
        res["split"] = tuple(int(i) for i in env.local_split(cfg["shape"], env.world, part(env, cfg["part"]), cfg["axis"]))
        b[:] = 0
        res["x_untouched"] = x.tobytes() == keep.tobytes()
        c = env.DistributedArray.to_dist(x, partition=part(env, cfg["part"]), axis=cfg["axis"])
        x[...] = 0
        res["c"] = meta(c)
        res["read"] = np.array(c[:])
        res["comm"] = c.base_comm == env.world
        return res

    def oracle(self, cfg, obs):
        x = self.content(cfg)
        ax, nd = cfg["axis"], len(cfg["shape"])
        sizes = expect(cfg)
        for k in ("manual", "dist", "c"):
            ms = col(obs, k)
            check_global(ms, x, k, sizes if cfg["part"] == "SCATTER" else None, ax, cfg["part"], cfg["dtype"], mask=None)
            for r, m in enumerate(ms):
                need((m["rank"], m["size"], m["ndim"], m["engine"]) == (r, cfg["P"], nd, "numpy"),
                     f"{k}: rank/size/ndim/engine are {(m['rank'], m['size'], m['ndim'], m['engine'])}")
        lsh = [tuple(s) for s in (shapes_for(x.shape, sizes, ax) if cfg["part"] == "SCATTER" else [x.shape] * cfg["P"])]
        for r, o in enumerate(obs):
            need(o["shapes"] == lsh, f"local_shapes on rank {r} are {o['shapes']}, should be {lsh}")
            need(o["split"] == lsh[r], f"local_split on rank {r} is {o['split']}, should be {lsh[r]}")
            same(o["manual_global"], x, f"asarray on rank {r}", dtype=cfg["dtype"])
            same(o["dist_global"], x, f"asarray of to_dist on rank {r}", dtype=cfg["dtype"])
            need(o["x_untouched"], f"writing into the distributed array changed the array it was made from (rank {r})")
            same(o["read"], o["c"]["loc"], "reading the local elements")
            need(o["comm"], "base communicator")


class Custom(Family):
    """Every split of a small extent, including ranks that own nothing."""

    name = "custom local shapes"
    policies = (ASC, DESC)

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4) + ((5,) if tier != "quick" else ()):
            for n in range(1, 7 if P < 4 else 5):
                for c in compositions(n, P):
                    i = len(out)
                    if i % 3 == 0:
                        shape, axis = (n,), 0
                    elif i % 3 == 1:
                        shape, axis = (n, 2), 0
                    else:
                        shape, axis = (3, n), 1
                    out.append(dict(P=P, shape=shape, axis=axis, sizes=c, form=("tuple", "int")[i % 2], dtype=(F8, C16, I8)[i % 3],
                                    layout=("C", "F", "strided")[(i // 2) % 3]))
        return out

    def program(self, env, cfg):
        x = distinct(cfg["shape"], cfg["dtype"])
        if cfg["layout"] == "F":
            x = np.asfortranarray(x)
        elif cfg["layout"] == "strided":
            big = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
            big[tuple(slice(0, None, 2) for _ in x.shape)] = x
            x = big[tuple(slice(0, None, 2) for _ in x.shape)]
        ls = shapes_for(cfg["shape"], cfg["sizes"], cfg["axis"])
        if cfg["form"] == "int" and len(cfg["shape"]) == 1:
            ls = [s[0] for s in ls]
        a = env.DistributedArray(global_shape=cfg["shape"], axis=cfg["axis"], local_shapes=ls, dtype=cfg["dtype"])
        a[:] = pieces(x, cfg["sizes"], cfg["axis"])[env.rank]
        b = env.DistributedArray.to_dist(x, axis=cfg["axis"], local_shapes=ls)
        return dict(a=meta(a), ag=a.asarray(), b=meta(b), bg=b.asarray(), sh=[tuple(map(int, s)) for s in b.local_shapes],
                    cp=meta(b.copy()), neg=meta(-b), zero=meta(b.zeros_like()))

    def oracle(self, cfg, obs):
        x = distinct(cfg["shape"], cfg["dtype"])
        lsh = shapes_for(cfg["shape"], cfg["sizes"], cfg["axis"])
        for k, w in (("a", x), ("b", x), ("cp", x), ("neg", -x), ("zero", 0 * x)):
            check_global(col(obs, k), w, k, cfg["sizes"], cfg["axis"], dtype=cfg["dtype"], mask=None)
        for r, o in enumerate(obs):
            same(o["ag"], x, f"asarray on rank {r}", dtype=cfg["dtype"])
            same(o["bg"], x, f"asarray of to_dist on rank {r}", dtype=cfg["dtype"])
            need(o["sh"] == lsh, f"local_shapes on rank {r}: {o['sh']}")


class Ravel(Family):
    """Flattening along the first axis keeps the global C order; on other axes each rank flattens what it owns."""

    name = "ravel"

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4):
            for shape, axis, sizes in (((5,), 0, None), ((4, 3), 0, None), ((4, 3), 1, None), ((7, 2, 2), 0, None), ((2, 5, 2), 1, None),
                                       ((6, 2), 0, "skew"), ((2, 6), 1, "skew")):
                for order in ("C", "F"):
                    for p in PARTS:
                        for mask in (False, True):
                            if mask and p == "UNSAFE_BROADCAST":
                                continue
                            out.append(dict(P=P, shape=shape, axis=axis, sizes=sizes, order=order, part=p, mask=mask,
                                            dtype=(F8, C16)[len(out) % 2]))
        return out

    def sizes(self, cfg):
        n = cfg["shape"][cfg["axis"]]
        if cfg["sizes"] is None:
            return split(n, cfg["P"])
        return [n - (cfg["P"] - 1)] + [1] * (cfg["P"] - 1)

    def program(self, env, cfg):
        x = distinct(cfg["shape"], cfg["dtype"])
        kw = dict(mask=[r % 2 for r in range(cfg["P"])]) if cfg["mask"] else {}
        a = dist(env, x, self.sizes(cfg), cfg["axis"], cfg["part"], **kw)
        f = a.ravel(order=cfg["order"])
        m = meta(f)
        al = np.shares_memory(f.local_array, a.local_array)
        f[:] = 0
        return dict(f=m, a=meta(a), alias=bool(al))

    def oracle(self, cfg, obs):
        x = distinct(cfg["shape"], cfg["dtype"])
        sz = self.sizes(cfg)
        if cfg["part"] == "SCATTER":
            ps = [p.ravel(order=cfg["order"]) for p in pieces(x, sz, cfg["axis"])]
            want, sizes = np.concatenate(ps), [p.size for p in ps]
        else:
            want, sizes = x.ravel(order=cfg["order"]), None
        mask = [r % 2 for r in range(cfg["P"])] if cfg["mask"] else None
        check_global(col(obs, "f"), want, "ravel", sizes, 0, cfg["part"], cfg["dtype"], mask=mask)
        check_global(col(obs, "a"), x, "the array that was flattened", sz if cfg["part"] == "SCATTER" else None, cfg["axis"], cfg["part"])
        need(not any(col(obs, "alias")), "the flattened array shares memory with the original")


FAMILIES = [Layout(), Custom(), Ravel()]
