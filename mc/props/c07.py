"""Ghost cells are the neighbours' cells."""
from .common import *

BOUNDS = ("1-4 ranks (thorough 1-5), every split (also empty pieces) of axes of 3-7 cells, 1-D to 4-D, every axis, 0-3 cells on either side, uniform for all "
          "and every combination of 0-2 cells per rank for up to 3 ranks; some on 5-8 ranks, some long arrays")


class Ghost(Family):
    name = "ghost cells"
    tolerate_partial = True
    policies = (ASC, DESC)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 2],)

    def configs(self, tier):
        out = []
        cells = [(f, b) for f in (None, 0, 1, 2, 3) for b in (None, 0, 1, 2, 3) if (f, b) != (None, None)]
        i = 0
        for P in range(1, 5 if tier == "quick" else 6):
            for n in (3, 5, 6, 7):
                for sz in compositions(n, P):
                    if tier == "quick" and P == 4 and sum(k == 0 for k in sz) > 1:
                        continue
                    for j, (f, b) in enumerate(cells):
                        i += 1
                        if P >= 3 and i % (11 if tier == "quick" else 4):
                            continue
                        shape, axis = ((n,), 0) if i % 4 == 0 else ((n, 2), 0) if i % 4 == 1 else ((3, n), 1) if i % 4 == 2 else ((2, n, 2), 1)
                        out.append(dict(P=P, shape=shape, axis=axis, sz=sz, f=(f,) * P, b=(b,) * P, dtype=(F8, C16, F4, I8)[(i // 4) % 4]))
        for P in (2, 3):
            for f in itertools.product((0, 1, 2), repeat=P):
                for b in itertools.product((0, 1, 2), repeat=P):
                    out.append(dict(P=P, shape=(3 * P + 1, 2), axis=0, sz=tuple(split(3 * P + 1, P)), f=f, b=b, dtype=F8))
                    if f == b or f == b[::-1]:
                        out.append(dict(P=P, shape=(2, 2 * P), axis=1, sz=tuple(split(2 * P, P)), f=f, b=b, dtype=C16))
        for P in (2, 3, 4, 5):
            for f, b in ((4, 4), (0, 5), (5, 0), (2, 4), (4, 1)):
                out.append(dict(P=P, shape=(5 * P + 2, 3), axis=0, sz=tuple(split(5 * P + 2, P)), f=(f,) * P, b=(b,) * P, dtype=F8))
                out.append(dict(P=P, shape=(3, 5 * P + 2), axis=1, sz=tuple(split(5 * P + 2, P)), f=(f,) * P, b=(b,) * P, dtype=F8))
        for P in (1, 2, 3, 4):  # the last axis of three, and each of four
            for k, (shape, axis) in enumerate((((2, 3, 0), 2), ((3, 2, 0), 2), ((0, 2, 3, 2), 0), ((2, 0, 3, 2), 1), ((2, 3, 0, 2), 2), ((2, 1, 3, 0), 3))):
                for sz in compositions(P + 2, P):
                    for j, (f, b) in enumerate(((1, 1), (2, None), (None, 2), (1, 2), (0, 1))):
                        if sum(q == 0 for q in sz) <= 1 and (P < 4 or (k + j) % 3 == 0):
                            out.append(dict(P=P, shape=tuple(q or P + 2 for q in shape), axis=axis, sz=sz, f=(f,) * P, b=(b,) * P, dtype=(F8, C16)[j % 2]))
        for P in (5, 6, 7, 8):
            for k, (f, b) in enumerate(((1, 1), (2, 1), (0, 2), (2, None), (None, 1))):
                out.append(dict(P=P, shape=(2 * P + 1, 2) if k % 2 else (2 * P + k,), axis=0, sz=tuple(split(2 * P + (1 if k % 2 else k), P)), f=(f,) * P, b=(b,) * P, dtype=(F8, C16, I8)[k % 3]))
                cs = [(k + r) % 3 for r in range(P)], [(2 * k + r) % 3 for r in range(P)]
                out.append(dict(P=P, shape=(3 * P,), axis=0, sz=(3,) * P, f=tuple(cs[0]), b=tuple(cs[1]), dtype=F8))
        for P, shape, axis in ((2, (30, 3000), 0), (3, (2000, 30), 1), (3, (40, 10, 60), 0), (2, (12, 40, 50), 1), (4, (30, 30, 40), 2)):  # messages of hundreds of kilobytes
            for f, b in ((1, 2), (3, None), (None, 1), (2, 5)):
                out.append(dict(P=P, shape=shape, axis=axis, sz=tuple(split(shape[axis], P)), f=(f,) * P, b=(b,) * P, dtype=(F8, C16)[P % 2]))
        for P, n in ((2, 1500), (3, 4001)):
            for f, b in ((1, 2), (600, 3), (0, 700)):
                out.append(dict(P=P, shape=(n,), axis=0, sz=tuple(split(n, P)), f=(f,) * P, b=(b,) * P, dtype=F8))
        return out

    def program(self, env, cfg):
        a = dist(env, distinct(cfg["shape"], cfg["dtype"]), cfg["sz"], cfg["axis"])
        kw = {}
        if cfg["f"][env.rank] is not None:
            kw["cells_front"] = cfg["f"][env.rank]
        if cfg["b"][env.rank] is not None:
            kw["cells_back"] = cfg["b"][env.rank]
        g = a.add_ghost_cells(**kw)
        g = np.array(g)
        same_ = bool(np.shares_memory(a.add_ghost_cells(**kw), a.local_array))
        return dict(g=g, a=meta(a), alias=same_)

    def enough(self, cfg):
        P, sz = cfg["P"], cfg["sz"]
        return all((not cfg["f"][r + 1] or cfg["f"][r + 1] <= sz[r]) and (not cfg["b"][r] or cfg["b"][r] <= sz[r + 1]) for r in range(P - 1))

    def oracle(self, cfg, obs):
        x = distinct(cfg["shape"], cfg["dtype"])
        ps = pieces(x, cfg["sz"], cfg["axis"])
        need(self.enough(cfg), f"more ghost cells than the neighbour owns were given out: {[o['g'].shape for o in obs]}")
        ax = cfg["axis"]
        for r, o in enumerate(obs):
            parts = [ps[r]]
            if r > 0 and cfg["f"][r]:
                k = ps[r - 1].shape[ax]
                parts.insert(0, np.take(ps[r - 1], range(k - cfg["f"][r], k), axis=ax))
            if r < cfg["P"] - 1 and cfg["b"][r]:
                parts.append(np.take(ps[r + 1], range(cfg["b"][r]), axis=ax))
            same(o["g"], np.concatenate(parts, axis=ax), f"ghosted array of rank {r}", dtype=cfg["dtype"])
            need(not o["alias"], f"the ghosted array of rank {r} shares memory with the array")
        check_global(col(obs, "a"), x, "the array afterwards", cfg["sz"], ax, dtype=cfg["dtype"])

    def on_raise(self, cfg, out):
        self.on_partial(cfg, out)

    def on_partial(self, cfg, out):
        if self.enough(cfg):
            raise Bad(out.trouble() or "rejected: " + str(out.first_exc()))
        if not any(e and e[0] == "ValueError" for e in out.exc):
            raise Bad("wrong exception: " + str(out.first_exc()))

    def real_ok(self, cfg):
        return self.enough(cfg)


FAMILIES = [Ghost()]
