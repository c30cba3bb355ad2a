"""Masks: a masked array reduces within the rank's group, and nothing else about it changes."""
from .common import *

BOUNDS = "every partition of 1-4 (thorough: 5) ranks into labelled groups up to 3 labels, and further labels larger than the number of ranks, 1-3 dimensions, 7 orders, 4 dtypes; some groups of 5, 6 and 8 ranks"
ORDS = (None, 0, 1, 3, "inf", "-inf", 2.5)


def o(x):
    return {"inf": np.inf, "-inf": -np.inf}.get(x, x)


def masks(P, labels):
    return list(itertools.product(labels, repeat=P))


class Groups(Family):
    name = "group reductions"
    policies = (ASC, DESC)

    def configs(self, tier):
        out = []
        wide = {1: [(3,), (17,)], 2: [(0, 2), (9, 4), (2, 2), (100, 3)], 3: [(3, 0, 6), (6, 3, 6), (5, 2, 2), (1000, 1, 7)], 4: [(4, 0, 8, 4), (1, 5, 9, 13), (2, 6, 2, 6), (7, 3, 7, 11)], 5: [(0, 1, 0, 1, 2), (2, 1, 0, 1, 2), (7, 7, 3, 7, 3)], 6: [(0, 1, 2, 0, 1, 2), (0, 0, 0, 1, 1, 1), (5, 4, 3, 2, 1, 0)], 8: [(0, 1, 2, 3, 3, 2, 1, 0), (1, 0, 1, 0, 1, 0, 1, 1)]}
        for P in (1, 2, 3, 4, 5, 6, 8):
            for m in (wide[P] if P > 5 or tier == "quick" and P > 4 else masks(P, (0, 1, 2) if P <= 3 else (0, 5)) + wide[P]):
                for p in ("SCATTER", "BROADCAST", "UNSAFE_BROADCAST"):
                    for shape, axis in (((9,), 0), ((5, 4), 0), ((3, 7), 1), ((2, 3, 5), 2), ((3,), 0)):
                        if p != "SCATTER" and axis != 0:
                            continue
                        out.append(dict(P=P, mask=m, shape=shape, axis=axis, part=p, sizes=("bal", "skew")[len(out) % 2],
                                        dtype=(F8, C16, F4, I8)[len(out) % 4], form=("list", "array")[len(out) % 2]))
        return out

    def sizes(self, cfg):
        n, P = cfg["shape"][cfg["axis"]], cfg["P"]
        if cfg["sizes"] == "bal" or cfg["part"] != "SCATTER":
            return split(n, P)
        s = [1] * P
        s[0] = n - P + 1
        return s if s[0] >= 0 else split(n, P)

    def program(self, env, cfg):
        mask = list(cfg["mask"]) if cfg["form"] == "list" else np.array(cfg["mask"])
        x, y = data(cfg["shape"], cfg["dtype"], 1, True), data(cfg["shape"], cfg["dtype"], 2)
        sz = self.sizes(cfg)
        a = dist(env, x, sz, cfg["axis"], cfg["part"], mask=mask)
        b = dist(env, y, sz, cfg["axis"], cfg["part"], mask=mask)
        kw = dict(partition=part(env, cfg["part"]), axis=cfg["axis"], mask=mask)
        if cfg["part"] == "SCATTER":
            kw["local_shapes"] = shapes_for(cfg["shape"], sz, cfg["axis"])
        t = env.DistributedArray.to_dist(x, **kw)
        res = dict(a=meta(a), t=meta(t), ab=np.array(a.dot(b)), n={}, ax={}, g=np.array(a.asarray()),
                   tn=np.array(t.norm()), sub=(a.sub_comm.Get_size(), a.sub_comm.Get_rank()))
        for q in ORDS:
            res["n"][str(q)] = np.array(a.norm(o(q)))
            if cfg["part"] == "SCATTER" or cfg["axis"] == 0:
                res["ax"][str(q)] = np.array(a.norm(o(q), axis=cfg["axis"]))
        for k, z in (("sum", a + b), ("dif", a - b), ("mul", a * b), ("sc", a * 2), ("neg", -a), ("cj", a.conj()), ("cp", a.copy()),
                     ("ze", a.zeros_like()), ("rv", a.ravel())):
            res[k] = meta(z)
            res[k + "_n"] = np.array(z.norm(1))
            res[k + "_g"] = (z.sub_comm.Get_size(), z.sub_comm.Get_rank())
        a += b
        res["ia"] = meta(a)
        res["ia_d"] = np.array(a.dot(b))
        return res

    def oracle(self, cfg, obs):
        x, y = data(cfg["shape"], cfg["dtype"], 1, True), data(cfg["shape"], cfg["dtype"], 2)
        P, sz, ax = cfg["P"], self.sizes(cfg), cfg["axis"]
        mk = list(cfg["mask"])
        t = 2e-4 if cfg["dtype"] == F4 else 1e-9
        kw = dict(sizes=sz if cfg["part"] == "SCATTER" else None, axis=ax, partition=cfg["part"], dtype=cfg["dtype"], mask=mk)
        ws = dict(sum=x + y, dif=x - y, mul=x * y, sc=2 * x, neg=-x, cj=x.conj(), cp=x, ze=0 * x)
        for k, w in list(ws.items()) + [("a", x), ("t", x), ("ia", x + y)]:
            check_global(col(obs, k), w, k, **kw)
        for r, ob in enumerate(obs):
            grp = [i for i in range(P) if mk[i] == mk[r]]
            same(ob["g"], x, f"asarray on rank {r}")

            def g(v):  # the part of the array the group owns
                return np.concatenate([pieces(v, sz, ax)[i] for i in grp], axis=ax)

            def nrm(v, q, axis=None):
                v = g(v).astype(complex)
                if axis is None:
                    v, axis = v.ravel(), 0
                if v.shape[axis] == 0:
                    return None
                return np.linalg.norm(v, o(q), axis)

            need(ob["sub"] == (len(grp), grp.index(r)), f"rank {r}: group size/rank {ob['sub']}, should be {(len(grp), grp.index(r))}")
            same(ob["ab"], np.sum(g(x) * g(y)), f"dot on rank {r} (group {grp})", tol=t)
            same(ob["ia_d"], np.sum(g(x + y) * g(y)), f"dot after += on rank {r} (group {grp})", tol=t)
            for q in ORDS:
                w = nrm(x, q)
                if w is not None:
                    got = np.asarray(ob["n"][str(q)])
                    need(got.size == 1, f"norm(ord={q}) has shape {got.shape}")
                    same(got.reshape(()), w, f"norm(ord={q}) on rank {r} (group {grp})", tol=t)
                if str(q) in ob["ax"]:
                    w = nrm(x, q, ax)
                    if w is not None:
                        w = np.asarray(w)
                        got = np.asarray(ob["ax"][str(q)])
                        same(got.reshape(w.shape) if got.size == w.size else got, w, f"norm(ord={q}, axis={ax}) on rank {r} (group {grp})", tol=t)
            same(np.asarray(ob["tn"]).reshape(()), nrm(x, 2), f"norm of to_dist on rank {r}", tol=t) if nrm(x, 2) is not None else None
            for k, w in ws.items():
                need(ob[k + "_g"] == (len(grp), grp.index(r)), f"{k}: group size/rank {ob[k + '_g']} on rank {r}")
                if nrm(w, 1) is not None:
                    same(np.asarray(ob[k + "_n"]).reshape(()), nrm(w, 1), f"norm of {k} on rank {r} (group {grp})", tol=t)
            need(ob["rv"]["mask"] == mk, f"mask of the flattened array is {ob['rv']['mask']}")
            if nrm(x, 1) is not None and cfg["part"] == "SCATTER":
                same(np.asarray(ob["rv_n"]).reshape(()), nrm(x, 1), f"norm of the flattened array on rank {r} (group {grp})", tol=t)


FAMILIES = [Groups()]
