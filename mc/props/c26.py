"""CGLS produces the iterates of the textbook method on the damped system."""
from .sol import *

BOUNDS = "1-4 ranks, 17 systems (tall, wide, square, stacked on either side, broadcast), 5 dampings (one negative), 3 starts, niter 0..8, a tolerance for every stopping iteration, 4 dtypes; every iterate, both cost histories, count, norms and reason; some on 5-8 ranks, of up to 33 unknowns and 25 iterations; data and operators scaled by powers of 2 from 2^-150 to 2^30"
SYSTEMS = ("R", "Q", "R.H", "A", "P", "V", "U", "H", "W", "D", "V.H", "VS(R, P)", "VS(D, S)", "BD(R, V)", "VS(P, D).H", "BD(Pu, H)", "R*P", "VS(W, V)", "2*R", "R.H*R")


class Iterates(Family):
    name = "iterates of CGLS"
    policies = (ASC, DESC, ROT)

    def real_close(self, cfg):
        return cfg.get("dtype") not in (F4, C8)  # single precision: what is left of a converged residual is rounding, which another order of sums changes

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 3],)

    def configs(self, tier):
        out = []
        i = 0
        for P in (1, 2, 3, 4):
            for s in SYSTEMS:
                for damp in (0.0, 0.5, 2.0, 10.0, -1.5):
                    for start in ("zero", "other", "solution"):
                        for stop in (("niter", 0), ("niter", 1), ("niter", 3), ("niter", 5), ("niter", 8), ("tol", 1), ("tol", 2), ("tol", 3), ("default", None)):
                            i += 1
                            if tier == "quick" and (i * 5 + i // 9) % 4:
                                continue
                            dtype = (F8, C16, F8, C16, F4, C8)[i // 3 % 6]
                            if dtype in (F4, C8) and (s.count("*") or stop[1] not in (0, 1, 2)):
                                dtype = {F4: F8, C8: C16}[dtype]
                            out.append(dict(P=P, sys=s, n=3 * P if "D" in s.replace("BD", "") else (P + 2 if P > 1 else 4) + i % 2, dtype=dtype, damp=damp, start=start, stop=stop, how=("class", "function", "steps")[i % 3]))
        # more ranks, larger systems, many iterations
        for P, n in ((5, 11), (6, 9), (8, 16), (2, 30), (3, 33)):
            for s in SYSTEMS:
                for stop in (("niter", 2), ("niter", 12), ("niter", 25), ("tol", 1), ("tol", 4), ("tol", 7), ("default", None)):
                    i += 1
                    if tier == "quick" and (i + i // 7) % 8:
                        continue
                    out.append(dict(P=P, sys=s, n=max(n, 3 * P) if "D" in s.replace("BD", "") else n, dtype=(F8, C16)[i // 2 % 2], damp=(0.0, 0.5, 10.0, -3.0, 2)[i // 5 % 5], start=("zero", "other")[i // 3 % 2], stop=stop,
                                    how=("class", "function", "steps")[i % 3]))
        # data, starts and operators of any size
        for P in (1, 2, 3):
            for s in SYSTEMS[::2] if tier == "quick" else SYSTEMS:
                for scale in SCALES:
                    for stop in (("niter", 1), ("niter", 4), ("tol", 1), ("tol", 3)):
                        i += 1
                        if tier == "quick" and (i + i // 5) % 3:
                            continue
                        out.append(dict(P=P, sys=s, n=3 * P if "D" in s.replace("BD", "") else P + 3, dtype=(F8, C16)[i // 2 % 2], damp=(0.0, 0.5, 10.0, -3.0)[i // 7 % 4], start=("zero", "other", "solution")[i // 3 % 3], stop=stop, how=("class", "function", "steps")[i % 3], scale=scale))
        return out

    @staticmethod
    def system(cfg):
        return System(cfg["sys"], cfg["n"], cfg["P"], cfg["dtype"])

    def vectors(self, cfg):
        s = self.system(cfg)
        M, N = s.matrix.shape
        y = data((M,), cfg["dtype"], 3)
        x0 = np.zeros(N, dtype=cfg["dtype"]) if cfg["start"] == "zero" else data((N,), cfg["dtype"], 8)
        if cfg["start"] == "solution":
            y = (s.matrix @ x0).astype(cfg["dtype"])
        return y, x0

    def limits(self, cfg):
        s = self.system(cfg)
        kind, v = cfg["stop"]
        if kind == "default":
            return None, None
        if kind == "niter":
            return v, 0.0
        y, x0 = self.vectors(cfg)
        ks = [r[1] for r in cgls_ref(s.matrix, y, x0, cfg["damp"], v)]
        t = pick_tol(ks, v) if len(ks) > v else None
        if t is None or cfg["dtype"] in (F4, C8) and t < 1e-3 * ks[0]:
            return v, 0.0
        return v + 4, t

    def program(self, env, cfg):
        s = self.system(cfg)
        y, x0 = self.vectors(cfg)
        niter, tol = self.limits(cfg)
        op = s.build(env)
        fy, fa = cfg.get("scale", (1.0, 1.0))  # of the data, of the operator
        if fa != 1.0:
            op = fa * op
        if fa != 1.0 or fy != 1.0:
            y, x0 = y * y.dtype.type(fy), x0 * x0.dtype.type(fy / fa)
            tol = tol * (fy * fa) ** 2
        Y, X0 = s.put(env, 1, y), s.put(env, 0, x0)
        seen = []
        kw = {}
        if niter is not None:
            kw = dict(niter=niter, tol=tol)
        if cfg["damp"] or cfg["how"] != "class":
            kw["damp"] = cfg["damp"] * fa
        cost1 = None
        if cfg["how"] == "function":
            x, istop, it, r1, r2, cost = env.cgls(op, Y, X0, callback=lambda x: seen.append(see(env, x)), **kw)
        elif cfg["how"] == "class":
            c = env.CGLS(op)
            c.callback = lambda x: seen.append(see(env, x))
            x, istop, it, r1, r2, cost = c.solve(Y, X0, **kw)
            cost1 = np.array(c.cost1)
        else:
            c = env.CGLS(op)
            x = c.setup(Y, X0, **kw)
            n = 10 if niter is None else niter
            while c.iiter < n and c.kold > c.tol:
                x = c.step(x)
                seen.append(see(env, x))
            c.finalize()
            istop, it, r1, r2, cost, cost1 = c.istop, c.iiter, c.r1norm, c.r2norm, c.cost, np.array(c.cost1)
        return dict(x=see(env, x), it=int(it), istop=int(istop), r=np.array([r1, r2]), cost=np.array(cost), cost1=cost1, seen=seen, y=see(env, Y), x0=see(env, X0), same=x is X0 or x is Y)

    def oracle(self, cfg, obs):
        s = self.system(cfg)
        y, x0 = self.vectors(cfg)
        niter, tol = self.limits(cfg)
        if niter is None:
            niter, tol = 10, 1e-4
        if "scale" in cfg:
            fy, fa = cfg["scale"]
            obs = [unscaled(o, fy / fa, fy) for o in obs]
        single = cfg["dtype"] in (F4, C8)
        real = np.dtype(cfg["dtype"]).kind != "c"
        ref = cgls_ref(s.matrix, y, x0, cfg["damp"], niter)
        tx = 2e-3 if single else 1e-6
        sc = max(1.0, max(np.abs(r[0]).max() for r in ref))
        for key in ("it", "cost", "istop", "r"):
            all_equal(col(obs, key), key)
        it, cost = obs[0]["it"], obs[0]["cost"]
        need(it <= niter, f"{it} iterations though {niter} were allowed")
        need(len(cost) == it + 1, f"{len(cost)} costs for {it} iterations")
        for o in obs:
            need(len(o["seen"]) == it, f"{len(o['seen'])} iterates seen in {it} iterations")
            need(not o["same"], "the solution is the caller's own array")
        G = np.linalg.norm(s.matrix, 2) + cfg["damp"]
        floor = (1e-5 if single else 1e-16) * G ** 2 * max(1.0, np.linalg.norm(y) ** 2, (G * np.abs(x0).max()) ** 2)
        ks = [float(r[1]) for r in ref]
        want = next((j for j, k in enumerate(ks) if k <= tol), len(ks) - 1 if len(ks) <= niter else niter)
        sharp = next((j for j, k in enumerate(ks) if k < floor), None)
        if sharp is None or tol > floor or want < sharp:
            need(it == want, f"{it} iterations, should be {want} (squared gradient norms {[float('%.3g' % k) for k in ks]}, tolerance {tol:.3g})")
            kend = ks[it]
            if abs(kend / max(tol, 1e-300) - 1) > 0.05:
                need(obs[0]["istop"] == (1 if kend < tol else 2), f"reason {obs[0]['istop']} with squared gradient norm {kend:.3g} and tolerance {tol:.3g}")
        else:
            need(it >= sharp, f"stopped after {it} iterations (squared gradient norms {[float('%.3g' % k) for k in ks]}, tolerance {tol:.3g})")
        last = min(it, len(ref) - 1 if sharp is None else min(sharp, len(ref) - 1), steady(ref, cgls_ref(s.matrix, y, x0, cfg["damp"], niter, np.clongdouble), 1e-6))
        need(last >= min(it, 2 if sharp is None else min(2, sharp)), "no reference")
        big = max(1.0, np.linalg.norm(y), ref[0][2])
        for j in range(last + 1):
            x, _, c0, c1 = ref[j]
            if j:
                s.check(0, [o["seen"][j - 1] for o in obs], x.real if real else x, f"iterate {j}", cfg["dtype"], tol=tx * sc / max(1.0, np.abs(x).max()))
            need(abs(cost[j] - c0) <= tx * big, f"cost {j} is {cost[j]:.9g}, should be {c0:.9g}")
            for o in obs:
                if o["cost1"] is not None:
                    need(len(o["cost1"]) == it + 1 and abs(o["cost1"][j] - c1) <= tx * (big + c1), f"damped cost {j} is {o['cost1'][j]:.9g}, should be {c1:.9g}")
        # the norms belong to the solution that is returned
        xs = obs[0]["x"]
        X = self.glob(s, col(obs, "x"))
        r1 = np.linalg.norm(y - s.matrix @ X)
        r2 = np.sqrt(r1 ** 2 + cfg["damp"] ** 2 * np.linalg.norm(X) ** 2)
        need(abs(obs[0]["r"][0] - r1) <= tx * big * 10, f"r1norm {obs[0]['r'][0]:.9g}, should be {r1:.9g}")
        need(abs(obs[0]["r"][1] - r2) <= tx * (big + r2) * 10, f"r2norm {obs[0]['r'][1]:.9g}, should be {r2:.9g}")
        if last == it:
            x = ref[it][0]
            s.check(0, col(obs, "x"), x.real if real else x, "solution", cfg["dtype"], tol=tx)
        if it:
            from .c25 import _same_bits
            for o in obs:
                _same_bits(o["x"], o["seen"][-1])
        del xs
        s.check(1, col(obs, "y"), y, "the data after the call", cfg["dtype"])
        s.check(0, col(obs, "x0"), x0, "the start after the call", cfg["dtype"])

    def glob(self, s, obs):
        def one(ms):
            return np.concatenate([m["loc"] for m in ms]) if ms[0]["part"] == "SCATTER" else ms[0]["loc"]

        if isinstance(obs[0], list):
            return np.concatenate([one([o[j] for o in obs]) for j in range(len(obs[0]))])
        return one(obs)


FAMILIES = [Iterates()]
