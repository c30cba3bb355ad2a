"""The plots show the distributed array as it is: the values, who owns them, each rank's own piece.

The figures are really drawn (Agg); what they show is read off the finished figure, whichever matplotlib calls made it."""
from .common import *

BOUNDS = "all compositions of extents up to 3 (thorough: 5) over 1-4 ranks (5 in thorough), both axes, 5 dtypes (also truth values), broadcast arrays, both plots, title and colour limits, sequences of two plots, 3 schedules; some on 5-8 ranks and of up to 40x30"


def read(fig):
    out = []
    for ax in fig.axes:
        for im in ax.images:
            a = im.get_array()
            a = np.asarray(np.ma.filled(a.astype(float), np.nan))
            out.append(dict(data=a, clim=tuple(None if c is None else float(c) for c in im.get_clim()), title=ax.get_title(), x=[float(t) for t in ax.get_xticks()],
                            y=[float(t) for t in ax.get_yticks()], origin=im.origin, place=tuple(float(q) for q in ax.get_position().bounds[:2])))
    s = fig._suptitle
    return dict(images=out, sup=None if s is None else s.get_text())


class Plots(Family):
    name = "plots"
    policies = (ASC, DESC, ROT)

    def policies_for(self, cfg, idx):
        return self.policies if idx % 5 == 0 else (self.policies[idx % 3],)

    def configs(self, tier):
        out, i = [], 0
        for P, n in ((1, 2), (2, 3), (3, 3), (4, 3)) if tier == "quick" else ((1, 3), (1, 4), (2, 4), (3, 4), (4, 4), (5, 3)):
            for c in compositions(n, P):
                for axis in (0, 1):
                    for what in ("layout", "local", "both"):
                        for dtype in (F8, I8, F4, "bool"):
                            i += 1
                            if tier == "quick" and (i + i // 8) % 3:
                                continue
                            out.append(dict(P=P, shape=(n, 2) if axis == 0 else (2, n), axis=axis, split=c, what=what, dtype=dtype, part="SCATTER", lim=i % 4))
            for part_ in ("BROADCAST", "UNSAFE_BROADCAST"):
                for what in ("layout", "local"):
                    i += 1
                    out.append(dict(P=P, shape=(n, 2), axis=0, split=None, what=what, dtype=(F8, F4)[i % 2], part=part_, lim=i % 4))
        # more ranks, larger arrays
        for P, shape, axis, c in ((6, (13, 4), 0, None), (5, (4, 11), 1, (1, 0, 7, 3, 0)), (8, (9, 3), 0, (0, 2, 1, 0, 3, 1, 2, 0)), (2, (40, 30), 0, (37, 3)), (3, (20, 33), 1, None), (7, (7, 1), 0, None)):
            for what in ("layout", "local", "both"):
                for dtype in (F8, I8, F4, "bool", "int8"):
                    i += 1
                    out.append(dict(P=P, shape=shape, axis=axis, split=tuple(c or split(shape[axis], P)), what=what, dtype=dtype, part="SCATTER", lim=i % 4))
        return out

    def content(self, cfg):
        x = data(cfg["shape"], cfg["dtype"], 1)
        if cfg["dtype"] == "bool":
            return data(cfg["shape"], I8, 1) > 0
        return x + np.arange(x.size).reshape(x.shape).astype(x.dtype)  # all distinct enough

    @staticmethod
    def clim(cfg):
        return ((-1.5, 2.5), (0.0, 2.0), (-3.0, 0.0))[(sum(cfg["shape"]) + cfg["lim"] + cfg["P"] + len(cfg["what"])) % 3]

    def program(self, env, cfg):
        from matplotlib import pyplot as plt

        w = env.world
        simulated = type(w).__module__ != "mpi4py.MPI"
        if env.rank == 0:
            plt.close("all")
        w.barrier()
        x = self.content(cfg)
        a = dist(env, x, cfg["split"], cfg["axis"], cfg["part"])
        if cfg["part"] == "UNSAFE_BROADCAST":  # the ranks may differ here
            a[:] = x + env.rank
        kw = {}
        if cfg["lim"] & 1:
            kw["title"] = "a title"
        if cfg["lim"] & 2:
            kw.update(zip(("vmin", "vmax"), self.clim(cfg)))
        exc = None
        try:
            if cfg["what"] in ("layout", "both"):
                env.plot_distributed_array(a)
            if cfg["what"] in ("local", "both"):
                env.plot_local_arrays(a, **kw)
        except NotImplementedError as e:
            exc = type(e).__name__
        w.barrier()
        figs = None
        if env.rank == 0 or not simulated:  # simulated ranks share one matplotlib: rank 0 sees what any of them made
            figs = [read(plt.figure(k)) for k in plt.get_fignums()]
            plt.close("all")
        w.barrier()
        return dict(exc=exc, figs=figs or None, a=meta(a), after=a.asarray(), sum=w.allreduce(1))

    def oracle(self, cfg, obs):
        P, x = cfg["P"], self.content(cfg)
        scat = cfg["part"] == "SCATTER"
        if scat:
            check_global(col(obs, "a"), x, "the array after plotting", cfg["split"], cfg["axis"], dtype=cfg["dtype"])
            for r, o in enumerate(obs):
                same(o["after"], x, f"asarray() on rank {r} after plotting")
        need(all(o["sum"] == P for o in obs), "the ranks got out of step")
        for r, o in enumerate(obs[1:]):
            need(not o["figs"], f"rank {r + 1} opened a figure")
        f = obs[0]["figs"] or []
        if cfg["part"] == "BROADCAST" and cfg["what"] == "layout":
            need(all(o["exc"] == "NotImplementedError" for o in obs), "the layout of a broadcast array is not rejected on every rank")
            need(not f, "a figure was opened all the same")
            return
        need(not any(o["exc"] for o in obs), f"a plot raised {[o['exc'] for o in obs]}")
        if not scat and cfg["what"] == "layout":
            return
        need(len(f) == (2 if cfg["what"] == "both" else 1), f"{len(f)} figures were opened")
        k = 0
        if cfg["what"] in ("layout", "both"):
            im = f[0]["images"]
            need(len(im) == 2, f"the layout plot has {len(im)} images")
            same(im[0]["data"], x.astype(float), "the values in the layout plot", tol=1e-6)
            own = np.concatenate([np.full(s, r, dtype=float) for r, s in enumerate(pieces_shapes(cfg))], axis=cfg["axis"])
            same(im[1]["data"], own, "the owners in the layout plot")
            need(im[0]["origin"] == im[1]["origin"] == "upper", "the plot is upside down")
            k = 1
        if cfg["what"] in ("local", "both"):
            im = f[k]["images"]
            need(len(im) == P, f"the plot of local arrays has {len(im)} images for {P} ranks")
            ps = pieces(x, cfg["split"], cfg["axis"]) if scat else [x + (r if cfg["part"] == "UNSAFE_BROADCAST" else 0) for r in range(P)]
            order = sorted(range(P), key=lambda j: im[j]["place"][0])
            for r in range(P):
                i = im[order[r]]
                need(str(r) in i["title"], f"the image in place {r} is called {i['title']!r}")
                same(i["data"], ps[r].astype(float), f"the image of rank {r}", tol=1e-6)
                if cfg["lim"] & 2:
                    need(i["clim"] == self.clim(cfg), f"colour limits {i['clim']} of the image of rank {r}")
            need(f[k]["sup"] == ("a title" if cfg["lim"] & 1 else None) or not cfg["lim"] & 1 and not f[k]["sup"], f"the title is {f[k]['sup']!r}")

    def on_raise(self, cfg, out):
        super().on_raise(cfg, out)


def pieces_shapes(cfg):
    return shapes_for(cfg["shape"], cfg["split"], cfg["axis"])


FAMILIES = [Plots()]
