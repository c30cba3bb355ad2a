"""CG produces the iterates of the textbook conjugate-gradient method."""
from .sol import *

BOUNDS = "1-4 ranks, 10 positive definite systems (block-diagonal, wrapped, composed, stacked), 3 starts, niter 0..n+2, a tolerance for every stopping iteration, 4 dtypes; every iterate, cost and count; some on 5-8 ranks, of up to 45 unknowns and 25 iterations; data and operators scaled by powers of 2 from 2^-150 to 2^30"
SYSTEMS = ("P", "Pu", "Y", "A.H*A + 40*P", "R.H*R + 40*P", "V.H*V + 40*Y", "P*P", "BD(P, Y)", "VS(P, D).H * VS(P, D)", "BD(P, Y)*BD(P, Y)", "D.H*D + P", "BD(Pu, P)", "W.H*W + 40*Y", "U.H*U + 40*Y")


def vec(sys_, side, salt):
    n = sys_.matrix.shape[1 - side]
    return data((n,), sys_.dtype, salt)


class Iterates(Family):
    name = "iterates of CG"
    policies = (ASC, DESC, ROT)

    def real_close(self, cfg):
        return cfg.get("dtype") not in (F4, C8)  # single precision: what is left of a converged residual is rounding, which another order of sums changes

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 3],)

    def configs(self, tier):
        out = []
        i = 0
        for P in (1, 2, 3, 4):
            for s in SYSTEMS:
                for dtype0 in (F8, C16, F4, C8):
                    for start in ("zero", "other", "solution"):
                        for stop in (("niter", 0), ("niter", 1), ("niter", 3), ("niter", "n"), ("niter", "n+2"), ("tol", 1), ("tol", 2), ("tol", 3), ("tol", 4), ("default", None)):
                            i += 1
                            dtype = dtype0
                            if tier == "quick" and (i * 7 + i // 11) % 3:
                                continue
                            if dtype in (F4, C8) and (s.count("P") + s.count("Y") > 1 and "*" in s or stop[1] not in (0, 1, 2)):
                                dtype = dict(float32=F8, complex64=C16)[dtype]
                            how = ("class", "function", "steps")[i % 3]
                            out.append(dict(P=P, sys=s, n=3 * P if "D" in s.replace("BD", "") else (P + 2 if P > 1 else 4) + i % 2, dtype=dtype, start=start, stop=stop, how=how))
        # more ranks, larger systems, many iterations
        for P, n in ((5, 11), (6, 9), (8, 16), (2, 40), (3, 45)):
            for s in SYSTEMS:
                for stop in (("niter", 2), ("niter", "n"), ("niter", 25), ("tol", 1), ("tol", 4), ("tol", 7), ("default", None)):
                    i += 1
                    if tier == "quick" and (i + i // 7) % 6:
                        continue
                    out.append(dict(P=P, sys=s, n=max(n, 3 * P) if "D" in s.replace("BD", "") else n, dtype=(F8, C16)[i // 2 % 2], start=("zero", "other")[i // 3 % 2], stop=stop, how=("class", "function", "steps")[i % 3]))
        # data, starts and operators of any size
        for P in (1, 2, 3):
            for s in SYSTEMS[::2] if tier == "quick" else SYSTEMS:
                for scale in SCALES:
                    for stop in (("niter", 1), ("niter", 4), ("tol", 1), ("tol", 3)):
                        i += 1
                        if tier == "quick" and (i + i // 5) % 3:
                            continue
                        out.append(dict(P=P, sys=s, n=3 * P if "D" in s.replace("BD", "") else P + 3, dtype=(F8, C16)[i // 2 % 2], start=("zero", "other", "solution")[i // 3 % 3], stop=stop, how=("class", "function", "steps")[i % 3], scale=scale))
        return out

    @staticmethod
    def system(cfg):
        return System(cfg["sys"], cfg["n"], cfg["P"], cfg["dtype"])

    def vectors(self, cfg):
        s = self.system(cfg)
        y = vec(s, 1, 3)
        if cfg["start"] == "zero":
            x0 = np.zeros_like(y)
        elif cfg["start"] == "other":
            x0 = vec(s, 0, 8)
        else:  # the data are made from the start
            x0 = vec(s, 0, 8)
            y = (s.matrix @ x0).astype(cfg["dtype"])
        return y, x0

    def limits(self, cfg):
        """niter, tol (None: not given)"""
        s = self.system(cfg)
        kind, v = cfg["stop"]
        n = s.matrix.shape[0]
        single = np.dtype(cfg["dtype"]).itemsize in (4,) or cfg["dtype"] == C8
        if kind == "default":
            return None, None
        if kind == "niter":
            return {"n": n, "n+2": n + 2}.get(v, v), 0.0
        y, x0 = self.vectors(cfg)
        ks = [k for _, k in cg_ref(s.matrix, y, x0, v)]
        t = pick_tol(ks, v) if len(ks) > v else None
        if t is None or single and t < 1e-3 * ks[0]:
            return min(v, n), 0.0
        return n + 3, t

    def program(self, env, cfg):
        s = self.system(cfg)
        y, x0 = self.vectors(cfg)
        niter, tol = self.limits(cfg)
        op = s.build(env)
        fy, fa = cfg.get("scale", (1.0, 1.0))  # of the data, of the operator
        if fa != 1.0:
            op = fa * op
        if fa != 1.0 or fy != 1.0:
            y, x0 = y * y.dtype.type(fy), x0 * x0.dtype.type(fy / fa)
            tol = tol * fy ** 2
        Y, X0 = s.put(env, 1, y), s.put(env, 0, x0)
        seen = []
        kw = {}
        if niter is not None:
            kw = dict(niter=niter, tol=tol)
        if cfg["how"] == "function":
            x, it, cost = env.cg(op, Y, X0, callback=lambda x: seen.append(see(env, x)), **kw)
            extra = None
        elif cfg["how"] == "class":
            c = env.CG(op)
            c.callback = lambda x: seen.append((see(env, x)))
            x, it, cost = c.solve(Y, X0, **kw)
            extra = (c.iiter, np.array(c.cost))
        else:
            c = env.CG(op)
            x = c.setup(Y, X0, **kw)
            if niter is None:
                niter = 10
            while c.iiter < niter and c.kold > c.tol:
                x = c.step(x)
                seen.append(see(env, x))
            c.finalize()
            it, cost, extra = c.iiter, c.cost, None
        return dict(x=see(env, x), it=int(it), cost=np.array(cost), seen=seen, y=see(env, Y), x0=see(env, X0), extra=extra, same=x is X0 or x is Y)

    def oracle(self, cfg, obs):
        s = self.system(cfg)
        y, x0 = self.vectors(cfg)
        niter, tol = self.limits(cfg)
        if niter is None:
            niter, tol = 10, 1e-4
        if "scale" in cfg:
            fy, fa = cfg["scale"]
            obs = [unscaled(o, fy / fa, fy) for o in obs]
        single = cfg["dtype"] in (F4, C8)
        ref = cg_ref(s.matrix, y, x0, niter)
        tx = 2e-3 if single else 1e-6
        eps = 1e-4 if single else 1e-10
        sc = max(1.0, max(np.abs(x).max() for x, _ in ref))
        for key in ("it", "cost"):
            all_equal(col(obs, key), key)
        it = obs[0]["it"]
        cost = obs[0]["cost"]
        need(it <= niter, f"{it} iterations though {niter} were allowed")
        need(len(obs[0]["cost"]) == it + 1, f"{len(cost)} costs for {it} iterations")
        for o in obs:
            need(len(o["seen"]) == it, f"{len(o['seen'])} iterates seen in {it} iterations")
            need(not o["same"], "the solution is the caller's own array")
            if o["extra"]:
                need(o["extra"][0] == it and np.array_equal(o["extra"][1], cost), "attributes of the solver differ from what it returned")
        # how many iterations?
        floor = eps * max(ref[0][1], float(np.vdot(y, y).real), 1.0)  # below it, rounding decides
        ks = [k for _, k in ref]
        want = next((j for j, k in enumerate(ks) if k <= tol), len(ks) - 1 if ks[-1] == 0 else niter)
        sharp = next((j for j, k in enumerate(ks) if k < floor), None)
        if tol > floor or sharp is None or want < sharp:
            need(it == want, f"{it} iterations, should be {want} (squared residual norms {[float('%.3g' % k) for k in ks]}, tolerance {tol:.3g})")
        else:
            need(it >= sharp, f"stopped after {it} iterations with squared residual norm {cost[-1] ** 2:.3g} (tolerance {tol:.3g})")
        last = min(it, len(ref) - 1 if sharp is None else min(sharp, len(ref) - 1), steady(ref, cg_ref(s.matrix, y, x0, niter, np.clongdouble), 1e-6))
        need(last >= min(it, 3 if sharp is None else min(3, sharp)), "no reference")
        for j in range(last + 1):
            if j:
                s.check(0, [o["seen"][j - 1] for o in obs], ref[j][0] if np.dtype(cfg["dtype"]).kind == "c" else ref[j][0].real, f"iterate {j}", cfg["dtype"], tol=tx * sc / max(1.0, np.abs(ref[j][0]).max()))
            e = abs(cost[j] - np.sqrt(ks[j]))
            need(e <= tx * max(1.0, np.sqrt(ks[0]), np.linalg.norm(y)), f"cost {j} is {cost[j]:.9g}, should be {np.sqrt(ks[j]):.9g}")
        fin = ref[it][0] if last == it else np.linalg.solve(s.matrix.astype(complex), y)
        fin = fin if np.dtype(cfg["dtype"]).kind == "c" else fin.real
        if last == it or sharp is not None and it >= sharp:
            s.check(0, col(obs, "x"), fin, "solution", cfg["dtype"], tol=tx if last == it else 3e-2)
        if it:
            for o in obs:
                _same_bits(o["x"], o["seen"][-1])
        s.check(1, col(obs, "y"), y, "the data after the call", cfg["dtype"])
        s.check(0, col(obs, "x0"), x0, "the start after the call", cfg["dtype"])


def _same_bits(a, b):
    a, b = (a, b) if isinstance(a, list) else ([a], [b])
    for u, v in zip(a, b):
        need(np.array_equal(u["loc"], v["loc"], equal_nan=True), "the solution is not the last iterate")


FAMILIES = [Iterates()]
