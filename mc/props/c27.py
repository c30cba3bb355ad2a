"""All ways of running a solver agree; the ranks stay in step; only the first one prints."""
import re

from .sol import *

BOUNDS = ("1-4 ranks; every division of 4 iterations into run() calls and single steps; 13 show/itershow settings; every sequence of three solves with one "
          "solver object out of 6 kinds (also abandoned ones); masked groups solving their own systems; cg and cgls, plain and stacked systems; some on 5-6 ranks and of up to 37 iterations; operators and types that change between the solves with one object")
CGS = ("P", "Pu", "Y", "R.H*R + 40*P", "BD(P, Y)")
LSQ = ("R", "V", "H", "VS(R, P)", "BD(R, V)", "R.H", "W")


def comp(n):
    """all ways of writing n as an ordered sum"""
    return [[]] if n == 0 else [[k] + c for k in range(1, n + 1) for c in comp(n - k)]


def ways(n, most):
    """all divisions of up to n iterations into ("run", k) and ("step", k)"""
    out = []
    for c in comp(n):
        if len(c) <= most:
            for kinds in itertools.product(("run", "step"), repeat=len(c)):
                if all(not (a == b == "step") for a, b in zip(kinds, kinds[1:])):
                    out.append(tuple(zip(kinds, c)))
    return out


class Base(Family):
    policies = (ASC, DESC, ROT)

    def real_close(self, cfg):
        return cfg.get("dtype") not in (F4, C8)  # single precision: what is left of a converged residual is rounding, which another order of sums changes

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 3],)

    def judge(self, cfg, out):
        self.stdout = out.stdout
        return super().judge(cfg, out)

    def sys(self, cfg):
        return System(cfg["sys"], cfg["n"], cfg["P"], cfg["dtype"])

    def problem(self, env, cfg, k=0):
        s = self.sys(cfg)
        M, N = s.matrix.shape
        return s.put(env, 1, data((M,), cfg["dtype"], 3 + k)), s.put(env, 0, data((N,), cfg["dtype"], 8 + k) if (k + len(cfg["sys"])) % 2 else np.zeros(N, dtype=cfg["dtype"]))

    def solver(self, env, cfg, op=None):
        op = self.sys(cfg).build(env) if op is None else op
        return (env.CG if cfg["kind"] == "cg" else env.CGLS)(op)

    def state(self, env, c, x):
        d = dict(x=see(env, x), it=int(c.iiter), cost=np.array(c.cost, dtype=float))
        if hasattr(c, "cost1"):
            d.update(cost1=np.array(c.cost1, dtype=float), istop=int(c.istop), r=np.array([c.r1norm, c.r2norm], dtype=float))
        return d

    def returned(self, env, kind, res):
        if kind == "cg":
            x, it, cost = res
            return dict(x=see(env, x), it=int(it), cost=np.array(cost, dtype=float))
        x, istop, it, r1, r2, cost = res
        return dict(x=see(env, x), it=int(it), cost=np.array(cost, dtype=float), istop=int(istop), r=np.array([r1, r2], dtype=float))


def agree(a, b, what):
    """two results; b is the reference"""
    for k in a:
        if k == "x":
            us, vs = (a[k], b[k]) if isinstance(a[k], list) else ([a[k]], [b[k]])
            need(len(us) == len(vs), f"{what}: another number of parts")
            for u, v in zip(us, vs):
                for f in ("gs", "ls", "axis", "part", "dtype", "ldtype"):
                    need(u[f] == v[f], f"{what}: {f} of the solution is {u[f]}, should be {v[f]}")
                same(u["loc"], v["loc"], f"{what}: solution", tol=1e-9)
        elif k in ("it", "istop"):
            need(a[k] == b[k], f"{what}: {k} is {a[k]}, should be {b[k]}")
        elif k in b:
            same(a[k], b[k], f"{what}: {k}", tol=1e-9)


def instep(obs, what):
    for k in ("it", "cost", "cost1", "istop", "r"):
        if k in obs[0]:
            all_equal([o[k] for o in obs], f"{what}: {k}")


class Ways(Base):
    name = "ways of running"

    def configs(self, tier):
        out, i = [], 0
        for P in (1, 2, 3, 4):
            for kind in ("cg", "cgls"):
                for s in CGS if kind == "cg" else LSQ:
                    for w in ways(4, 3 if tier == "quick" else 4):
                        i += 1
                        if tier == "quick" and (i * 5 + i // 9) % 3:
                            continue
                        if s in "VH" and P < 4:
                            continue  # they converge before (and a step after convergence divides by zero)
                        out.append(dict(P=P, kind=kind, sys=s, n=6 + P % 2, dtype=(F8, C16)[i // 2 % 2], way=w, damp=(0.0, 1.5)[i % 2],
                                        niter=(None, 4, 9)[i // 3 % 3], cb=i // 5 % 2, argorder=i % 2))
        # more ranks, larger systems, more iterations
        for P, n in ((5, 12), (6, 13), (2, 40)):
            for kind in ("cg", "cgls"):
                for s in CGS if kind == "cg" else LSQ:
                    if s in "VHPuBD(P, Y)" and s != "P":
                        continue
                    for w in ((("run", 6),), (("step", 2), ("run", 4)), (("run", 3), ("step", 1), ("run", 2)), (("step", 6),)):
                        i += 1
                        if tier == "quick" and i % 3:
                            continue
                        out.append(dict(P=P, kind=kind, sys=s, n=n, dtype=(F8, C16)[i // 2 % 2], way=w, damp=(0.0, 1.5)[i % 2], niter=(None, 4, 9)[i // 3 % 3], cb=i // 5 % 2, argorder=i % 2))
        return out

    def program(self, env, cfg):
        y, x0 = self.problem(env, cfg)
        N = sum(k for _, k in cfg["way"])
        damp = {} if cfg["kind"] == "cg" else dict(damp=cfg["damp"])
        op = self.sys(cfg).build(env)
        # reference: the class, in one go
        seen, seenf, seenw = [], [], []
        c = self.solver(env, cfg, op)
        c.callback = lambda x: seen.append(see(env, x))
        ref = self.returned(env, cfg["kind"], c.solve(y, x0, niter=N, tol=0.0, **damp))
        ref = (ref, self.state(env, c, x0))
        # the function
        f = env.cg if cfg["kind"] == "cg" else env.cgls
        kw = dict(callback=lambda x: seenf.append(see(env, x))) if cfg["cb"] else {}
        if cfg["argorder"]:
            fun = self.returned(env, cfg["kind"], f(op, y, x0, N, *damp.values(), 0.0, **kw))
        else:
            fun = self.returned(env, cfg["kind"], f(Op=op, y=y, x0=x0, niter=N, tol=0.0, **damp, **kw))
        # by hand
        c = self.solver(env, cfg, op)
        cb = []
        if cfg["cb"]:
            c.callback = lambda x: cb.append((int(c.iiter), see(env, x)))
        x = c.setup(y=y, x0=x0, tol=0.0, niter=cfg["niter"], **damp)
        done = 0
        for how, k in cfg["way"]:
            done += k
            if how == "run":
                x = c.run(x, niter=done)
                seenw.append((done, see(env, x)))
            else:
                for j in range(k):
                    x = c.step(x)
                    seenw.append((done - k + j + 1, see(env, x)))
        c.finalize()
        return dict(seen=seen, ref=ref[0], refst=ref[1], fun=fun, seenf=seenf, hand=self.state(env, c, x), seenw=seenw, cb=cb,
                    y=see(env, y), x0=see(env, x0))

    def oracle(self, cfg, obs):
        s = self.sys(cfg)
        N = sum(k for _, k in cfg["way"])
        for k in ("ref", "fun", "hand"):
            instep(col(obs, k), k)
        for o in obs:
            need(o["ref"]["it"] == N and len(o["ref"]["cost"]) == N + 1, f"solve did {o['ref']['it']} iterations of {N}")
            agree({k: v for k, v in o["ref"].items() if k != "x"}, o["refst"], "what solve returned and the solver's attributes")
            agree(o["fun"], o["ref"], "function and class")
            agree({k: v for k, v in o["hand"].items() if k in o["ref"]}, o["ref"], "run by hand and solve")
            agree({k: v for k, v in o["hand"].items() if k != "x"}, o["refst"], "run by hand and solve")
            need(len(o["seen"]) == N, f"callback called {len(o['seen'])} times in {N} iterations")
            its = [u["x"] if isinstance(u, dict) and "x" in u else u for u in o["seen"]]
            if cfg["cb"]:
                need(len(o["seenf"]) == N, f"callback of the function called {len(o['seenf'])} times in {N} iterations")
                for j in range(N):
                    agree(dict(x=o["seenf"][j]), dict(x=its[j]), f"iterate {j + 1} in the function's callback")
            for j, x in o["seenw"]:
                agree(dict(x=x), dict(x=its[j - 1]), f"iterate {j} by hand")
            if cfg["cb"]:
                d, want = 0, []
                for how, k in cfg["way"]:
                    want += list(range(d + 1, d + k + 1)) if how == "run" else []
                    d += k
                got = [j for j, _ in o["cb"]]
                need(got == want, f"run called the callback after iterations {got}, should be {want}")
                for j, x in o["cb"]:
                    agree(dict(x=x), dict(x=its[j - 1]), f"iterate {j} in run's callback")
        M, Nn = s.matrix.shape
        s.check(1, col(obs, "y"), data((M,), cfg["dtype"], 3), "the data afterwards")
        s.check(0, col(obs, "x0"), data((Nn,), cfg["dtype"], 8) if len(cfg["sys"]) % 2 else np.zeros(Nn), "the start afterwards")
        for r, t in enumerate(self.stdout or []):
            need(t == "", f"rank {r} prints {t[:60]!r} though nothing is to be shown")


class Show(Base):
    name = "show and itershow"
    SETTINGS = ((1, 1, 1), (0, 0, 1), (0, 0, 2), (0, 0, 3), (0, 0, 100), (2, 0, 100), (0, 2, 100), (1, 3, 5), (2, 2, 2), (3, 1, 4), (100, 0, 100), None)

    def configs(self, tier):
        out, i = [], 0
        for P in (1, 2, 3, 4):
            for kind in ("cg", "cgls"):
                for s in CGS if kind == "cg" else LSQ:
                    for st in self.SETTINGS:
                        for dtype in (F8, C16, F4):
                            i += 1
                            if tier == "quick" and (i + i // 7) % 3:
                                continue
                            out.append(dict(P=P, kind=kind, sys=s, n=P + 2 if P > 1 else 7, dtype=dtype, itershow=st, niter=(5, 7, 1, 0)[i % 4], how=("solve", "function", "run", "cb")[i // 2 % 4],
                                            tol=(0.0, 1e-4, 1e6)[i // 5 % 3]))
            if P == 4:  # more ranks, more iterations
                for Q, n, niter in ((6, 13, 5), (5, 12, 23), (2, 40, 37)):
                    for kind in ("cg", "cgls"):
                        for s in ("P", "BD(P, Y)") if kind == "cg" else ("R", "VS(R, P)"):
                            for j, st in enumerate(self.SETTINGS):
                                i += 1
                                if tier != "quick" or (i + j) % 4 == 0:
                                    out.append(dict(P=Q, kind=kind, sys=s, n=n, dtype=(F8, C16)[i % 2], itershow=st, niter=niter, how=("solve", "function", "run", "cb")[i // 2 % 4], tol=0.0))
            # the first rank may own nothing of what is shown
            for kind in ("cg", "cgls"):
                for first in (0, 1):
                    for how in ("solve", "step"):
                        out.append(dict(P=P, kind=kind, sys="hole", n=2, dtype=F8, itershow=None, niter=3, how=how, tol=0.0, first=first))
        return out

    def hole(self, env, cfg):
        """a system whose model has nothing on rank 0 (or on the last rank)"""
        import pylops
        e = self.extents(cfg)
        op = env.MPIBlockDiag([pylops.Diagonal(1.0 + env.rank + np.arange(e[env.rank]), dtype=np.float64)])
        return op, dist(env, data((sum(e),), F8, 3), e), dist(env, np.zeros(sum(e)), e)

    @staticmethod
    def extents(cfg):
        e = [5] * cfg["P"]
        if cfg["P"] > 1:
            e[0 if cfg["first"] == 0 else -1] = 0
        return e

    def program(self, env, cfg):
        damp = {} if cfg["kind"] == "cg" else dict(damp=0.5)
        shw = {} if cfg["itershow"] is None else dict(itershow=cfg["itershow"])
        if cfg["sys"] == "hole":
            op, y, x0 = self.hole(env, cfg)
        else:
            op = self.sys(cfg).build(env)
            y, x0 = self.problem(env, cfg)
        c = self.solver(env, cfg, op)
        base = self.returned(env, cfg["kind"], c.solve(y, x0, niter=cfg["niter"], tol=cfg["tol"], **damp))
        seen = []
        kw = dict(niter=cfg["niter"], tol=cfg["tol"], show=True, **damp)
        print("@@")
        if cfg["how"] in ("function", "cb"):
            f = env.cg if cfg["kind"] == "cg" else env.cgls
            if cfg["how"] == "cb":
                kw["callback"] = lambda x: seen.append(1)
            res = self.returned(env, cfg["kind"], f(op, y, x0, **kw, **shw))
        elif cfg["how"] == "solve":
            c = self.solver(env, cfg, op)
            res = self.returned(env, cfg["kind"], c.solve(y, x0, **kw, **shw))
        elif cfg["how"] == "run":
            c = self.solver(env, cfg, op)
            x = c.setup(y, x0, **kw)
            x = c.run(x, show=True, **shw)
            c.finalize(show=True)
            res = self.state(env, c, x)
        else:
            c = self.solver(env, cfg, op)
            x = c.setup(y, x0, **kw)
            for _ in range(cfg["niter"]):
                x = c.step(x, True)
            c.finalize(True)
            res = self.state(env, c, x)
        return dict(base=base, res=res, cb=len(seen))

    def oracle(self, cfg, obs):
        for k in ("base", "res"):
            instep(col(obs, k), k)
        for o in obs:
            agree({k: v for k, v in o["res"].items() if k in o["base"]}, o["base"], "with and without output")
            if cfg["how"] == "cb":
                need(o["cb"] == o["base"]["it"], "another number of callbacks with output")
        if not self.stdout:
            return
        outs = [t.split("@@\n") for t in self.stdout]
        for r, t in enumerate(outs):
            need(len(t) == 2 and t[0] == "", f"rank {r} prints {t[0][:60]!r} though nothing is to be shown")
            need(r == 0 or t[1] == "", f"rank {r} prints {t[1][:60]!r}: only rank 0 may")
        self.lines(cfg, outs[0][1], obs[0]["res"])

    def lines(self, cfg, text, res):
        it, cost = res["it"], res["cost"]
        need(f"Iterations = {it} " in text, f"the output does not tell the number of iterations, {it}: {text[-200:]!r}")
        rows = []
        for ln in text.split("\n"):
            m = re.match(r"^\s+(\d+)\s+(\S+.*)$", ln)
            if m and "e" in m.group(2):
                rows.append((int(m.group(1)), m.group(2).split()))
        its = [i for i, _ in rows]
        need(its == sorted(set(its)) and all(1 <= i <= it for i in its), f"iterations shown: {its} of {it}")
        sh = cfg["itershow"] or (10, 10, 10)
        must = set(range(1, min(sh[0], it) + 1)) if cfg["how"] != "step" else set(range(1, it + 1))
        need(must <= set(its), f"iterations shown: {its}, the first {sh[0]} of {it} should be")
        if cfg["how"] != "step":
            # those which no reading of itershow asks for
            far = [i for i in its if i > sh[0] + 1 and i < cfg["niter"] - sh[1] and all(k % sh[2] for k in (i - 1, i))]
            need(not far, f"iterations {far} are shown with itershow={sh}, niter={cfg['niter']}")
        for i, w in rows:
            v = float(w[-1 if cfg["kind"] == "cg" else -2])
            need(abs(v - cost[i]) <= 1e-3 * abs(cost[i]) + 1e-12, f"cost shown for iteration {i} is {v}, should be {cost[i]}")
        if it and its and its[-1] == it and cfg["sys"] != "hole":
            x = res["x"]
            x = (x[0] if isinstance(x, list) else x)["loc"]
            if x.size:
                v = complex(rows[-1][1][0])
                need(abs(v - x.flat[0]) <= 2e-2 * abs(x.flat[0]) + 1e-12, f"x[0] shown for iteration {it} is {v}, should be {x.flat[0]}")


class Reuse(Base):
    name = "one solver object for several systems"
    KINDS = ("a", "b", "c", "tol", "abandoned", "none", "type", "op")

    def configs(self, tier):
        out, i = [], 0
        for P in (1, 2, 3, 4):
            for kind in ("cg", "cgls"):
                for s in ("P", "BD(P, Y)") if kind == "cg" else ("R", "VS(R, P)"):
                    for seq in itertools.product(self.KINDS, repeat=3 if tier == "quick" else 4):
                        i += 1
                        if seq[-1] in ("abandoned", "none") or tier == "quick" and (i * 3 + i // 8) % 5:
                            continue
                        out.append(dict(P=P, kind=kind, sys=s, n=P + 1 if P > 1 else 4, dtype=(F8, C16)[i % 2], seq=seq))
        return out

    def other(self, cfg, what):
        """the system of that solve: another type of values, another operator"""
        if what == "type":
            return dict(cfg, dtype={F8: C16, C16: F8}[cfg["dtype"]])
        if what == "op":
            return dict(cfg, sys={"P": "Y", "BD(P, Y)": "Pu", "R": "VS(R, P)", "VS(R, P)": "Q"}[cfg["sys"]], n=cfg["n"] + 1)
        return cfg

    def one(self, env, cfg, c, k, what, seen):
        cfg = self.other(cfg, what)
        y, x0 = self.problem(env, cfg, dict(a=0, b=1, c=2, tol=1, type=0, op=4).get(what, 3))
        ls = cfg["kind"] == "cgls"
        if what == "none":  # no iteration
            kw = dict(niter=0, tol=0.0)
        elif what == "tol":
            kw = dict(niter=12, tol=1e-1)
        else:
            kw = dict(niter=dict(a=3, b=2, c=4).get(what, 3), tol=0.0)
        if ls:
            kw["damp"] = dict(a=0.0, b=2.0, c=0.5).get(what, 1.0)
        if what == "abandoned":
            x = c.setup(y, x0, **kw)
            c.step(x)
            return None
        res = c.solve(y, x0, **kw)
        d = self.returned(env, cfg["kind"], res)
        d["st"] = self.state(env, c, res[0])
        return d

    def program(self, env, cfg):
        op = self.sys(cfg).build(env)
        c = self.solver(env, cfg, op)
        out, keep = [], []
        for j, k in enumerate(cfg["seq"]):
            seen, seen2 = [], []
            c.callback = lambda x, seen=seen: seen.append(see(env, x))
            mine = op if k not in ("type", "op") else self.sys(self.other(cfg, k)).build(env)
            c.Op = mine
            r = self.one(env, cfg, c, j, k, seen)
            f = self.solver(env, cfg, mine)
            f.callback = lambda x, seen=seen2: seen.append(see(env, x))
            w = self.one(env, cfg, f, j, k, seen2)
            out.append((r, w, seen, seen2))
        return out

    def oracle(self, cfg, obs):
        for j, k in enumerate(cfg["seq"]):
            if k == "abandoned":
                continue
            what = f"solve {j + 1} of {cfg['seq']} on the same solver object"
            instep([o[j][0] for o in obs], what)
            for o in obs:
                r, w, seen, seen2 = o[j]
                a, b = r.pop("st"), w.pop("st")
                agree(r, w, what)
                agree(a, b, what + ", attributes")
                r["st"], w["st"] = a, b
                need(len(seen) == len(seen2) == r["it"], f"{what}: {len(seen)} callbacks in {r['it']} iterations")
                for u, v in zip(seen, seen2):
                    agree(dict(x=u), dict(x=v), what + ", iterate")


class Groups(Base):
    name = "masked groups solve their own systems"

    def configs(self, tier):
        out, i = [], 0
        for P in (2, 3, 4):
            for mask in itertools.product(range(P), repeat=P):
                if any(m > max(mask[:j] + (-1,)) + 1 for j, m in enumerate(mask)):
                    continue
                for kind in ("cg", "cgls"):
                    for dtype in (F8, C16):
                        i += 1
                        out.append(dict(P=P, kind=kind, mask=mask, dtype=dtype, damp=(0.0, 1.0)[i % 2], how=("function", "class")[i // 2 % 2], rect=i // 3 % 2))
        return out

    def blocks(self, cfg):
        if cfg["kind"] == "cg":
            return [spd(2 + r % 2, cfg["dtype"], 7 * r) for r in range(cfg["P"])]
        return [data((3 + cfg["rect"], 2 + r % 2), cfg["dtype"], 11 * r) for r in range(cfg["P"])]

    def program(self, env, cfg):
        import pylops
        b = self.blocks(cfg)
        mask = list(cfg["mask"])
        op = env.MPIBlockDiag([pylops.MatrixMult(b[env.rank], dtype=np.dtype(cfg["dtype"]))], mask=mask)
        M, N = sum(k.shape[0] for k in b), sum(k.shape[1] for k in b)
        y = dist(env, data((M,), cfg["dtype"], 3), [k.shape[0] for k in b], mask=mask)
        x0 = dist(env, np.zeros(N, dtype=cfg["dtype"]), [k.shape[1] for k in b], mask=mask)
        kw = dict(niter=2, tol=0.0)
        if cfg["kind"] == "cgls":
            kw["damp"] = cfg["damp"]
        if cfg["how"] == "function":
            return self.returned(env, cfg["kind"], (env.cg if cfg["kind"] == "cg" else env.cgls)(op, y, x0, **kw))
        c = self.solver(env, cfg, op)
        return self.returned(env, cfg["kind"], c.solve(y, x0, **kw))

    def oracle(self, cfg, obs):
        b = self.blocks(cfg)
        y = pieces(data((sum(k.shape[0] for k in b),), cfg["dtype"], 3), [k.shape[0] for k in b])
        for g in set(cfg["mask"]):
            rs = [r for r in range(cfg["P"]) if cfg["mask"][r] == g]
            A = blockdiag([b[r] for r in rs], cfg["dtype"])
            x0 = np.zeros(A.shape[1], dtype=cfg["dtype"])
            yy = np.concatenate([y[r] for r in rs])
            ref = cg_ref(A, yy, x0, 2) if cfg["kind"] == "cg" else cgls_ref(A, yy, x0, cfg["damp"], 2)
            x = pieces(ref[-1][0], [b[r].shape[1] for r in rs])
            for k, r in enumerate(rs):
                o = obs[r]
                need(o["it"] == 2, f"{o['it']} iterations")
                need(o["x"]["mask"] == list(cfg["mask"]), "the solution's mask")
                same(o["x"]["loc"], x[k] if np.dtype(cfg["dtype"]).kind == "c" else x[k].real, f"solution on rank {r}", tol=1e-6)
                want = [np.sqrt(q[1]) if cfg["kind"] == "cg" else q[2] for q in ref]
                same(o["cost"], np.array(want, dtype=float), f"costs on rank {r}", tol=1e-6)


FAMILIES = [Ways(), Show(), Reuse(), Groups()]
