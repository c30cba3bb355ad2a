"""Whole programs - models, operators, solvers, hand-written iterations - give what they give serially, on any number of ranks and however the work is divided."""
import pylops
import pylops.avo.poststack

from .sol import *
from .c15 import blockdiag
from . import c24

BOUNDS = ("11 programs (post-stack inversion in 3 formulations, least-squares imaging, deconvolution with MDC, horizontal stacks, smoothing and regularised inversion with derivatives, total-variation-like gradient descent, power iteration, "
          "ghost-cell relaxation, alternating directions, statistics, chained operators) on fixed global problems, 1-6 ranks (thorough 8), 4 ways to divide the work, several operators per rank, real and complex, single and double precision, "
          "2-5 iterations, against dense serial computations")
F4TOL, TOL = 2e-3, 1e-7


def rows(n, P, how):
    """n rows for P ranks"""
    if how == "even":
        return split(n, P)
    if how == "back":
        return split(n, P)[::-1]
    s = [2] * P  # at least two each
    left = n - 2 * P
    if how == "first":
        s[0] += left
    elif how == "last":
        s[-1] += left
    else:  # "mid"
        s[P // 2] += left // 2
        s[0] += left - left // 2
    return s


def see_any(env, v):
    if isinstance(v, (env.DistributedArray, env.StackedDistributedArray)):
        return see(env, v)
    if isinstance(v, (list, tuple)):
        return [see_any(env, x) for x in v]
    return np.array(v)


def glue(obs, what):
    """the global array that per-rank descriptions stand for"""
    m = obs[0]
    for r, o in enumerate(obs):
        need(isinstance(o, dict) and o["part"] == m["part"] and o["gs"] == m["gs"] and o["axis"] == m["axis"], f"{what}: rank {r} has another layout than rank 0")
        need(o["ls"] == o["loc"].shape, f"{what}: rank {r} says local shape {o['ls']} but holds {o['loc'].shape}")
    if m["part"] != "SCATTER":
        for r, o in enumerate(obs):
            need(np.array_equal(o["loc"], m["loc"]), f"{what}: rank {r} has other values than rank 0")
        return m["loc"]
    g = np.concatenate([o["loc"] for o in obs], axis=m["axis"])
    need(g.shape == m["gs"], f"{what}: the pieces make {g.shape}, the global shape is {m['gs']}")
    return g


class Flow(Family):
    policies = (ASC, DESC, ROT)
    dims = (12, 2, 3)
    ranks = (1, 2, 3, 4, 5, 6)
    hows = ("even", "back", "first", "last", "mid")
    dtypes = (F8, C16, F4)
    variants = (0, 1, 2)
    lengths = (12,)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 3],)

    def configs(self, tier):
        out = []
        for P in self.ranks + ((8,) if tier != "quick" else ()):
            for how in self.hows:
                if P == 1 and how != "even":
                    continue
                for v in self.variants:
                    for t in self.dtypes:
                        for it in (2, 4) if tier == "quick" else (1, 2, 3, 4, 5):
                            for n in self.lengths + (() if tier == "quick" else (self.lengths[-1] + 5,)):
                                out.append(dict(P=P, n=n, how=how, v=v, dtype=t, niter=it))
        return [c for c in out if self.fits(c)]

    def fits(self, cfg):
        return 2 * cfg["P"] <= cfg["n"]

    def grid(self, cfg):
        return (cfg["n"],) + self.dims[1:]

    def real_close(self, cfg):
        return False  # the order of real reductions is not the simulator's: iterations differ by rounding, the oracle judges both

    # -- to be given
    def flow(self, env, cfg):
        """name -> result"""
        raise NotImplementedError

    def serial(self, dims, v, dtype, niter):
        """name -> result, computed without any distribution"""
        raise NotImplementedError

    # --
    def program(self, env, cfg):
        return {k: see_any(env, v) for k, v in self.flow(env, cfg).items()}

    def ref(self, cfg):
        key = (type(self).__name__, cfg["n"], cfg["v"], cfg["dtype"], cfg["niter"])
        if key not in _refs:
            _refs[key] = self.serial(self.grid(cfg), cfg["v"], cfg["dtype"], cfg["niter"])
        return _refs[key]

    def oracle(self, cfg, obs):
        tol = F4TOL if cfg["dtype"] == F4 else TOL
        for k, want in self.ref(cfg).items():
            self.compare(k, col(obs, k), want, tol, cfg)

    def compare(self, k, xs, want, tol, cfg):
        if isinstance(want, list):
            need(isinstance(xs[0], list) and len(xs[0]) == len(want), f"{k}: not a stack of {len(want)}")
            for j, w in enumerate(want):
                self.compare(f"{k}, part {j}", [x[j] for x in xs], w, tol, cfg)
        elif isinstance(xs[0], dict):
            got = glue(xs, k)
            need(np.iscomplexobj(got) or not np.iscomplexobj(want) or np.abs(np.imag(want)).max() == 0, f"{k}: real, should be complex")
            same(got.reshape(np.shape(want)) if got.size == np.size(want) else got, want, k, tol=tol)
        else:
            for r, x in enumerate(xs):
                same(np.reshape(x, np.shape(want)) if np.size(x) == np.size(want) else x, want, f"{k} on rank {r}", tol=tol)
            all_equal(xs, k)


_refs = {}


def cgls_x(A, y, x0, damp, it):
    out = cgls_ref(A, y, x0, damp, it)
    return out[-1][0], np.array([o[2] for o in out])


def cg_x(A, y, x0, it):
    out = cg_ref(A, y, x0, it)
    return out[-1][0], np.array([np.sqrt(o[1]) for o in out])


def real_if(v, dtype):
    return v if np.dtype(dtype).kind == "c" else np.real(v)


@frozen
def lap_dense(dims, axes, weights, sampling, edge):
    return sum(w * np.asarray(pylops.SecondDerivative(dims, axis=a, sampling=s, edge=edge, dtype=F8).todense()) for a, w, s in zip(axes, weights, sampling))


@frozen
def d1_dense(dims, kind, edge, order):
    return np.asarray(pylops.FirstDerivative(dims, axis=0, kind=kind, edge=edge, order=order, dtype=F8).todense())


class Poststack(Flow):
    """Post-stack seismic inversion: traces of my part of the volume, no regularisation, normal equations, stacked."""

    name = "post-stack inversion"
    dims = (12, 2, 6)
    hows = ("even",)  # sums with derivatives need their layout
    lengths = (12, 13, 17)
    dtypes = (F8, F4)

    WAV = np.array([0.25, -1.0, 2.0, -0.5, 0.125])
    EPS = 4.0

    def trace(self, dims, dtype):
        n, nx, nz = dims
        T = pylops.Transpose((n, nx, nz), (2, 0, 1), dtype=dtype)
        return T.H @ pylops.avo.poststack.PoststackLinearModelling(self.WAV.astype(dtype), nt0=nz, spatdims=(n, nx)) @ T

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        ny, nx, nz = dims
        P, dt = cfg["P"], cfg["dtype"]
        rs = rows(ny, P, cfg["how"])
        k = rs[env.rank]
        ops = [self.trace((k, nx, nz), dt)] if cfg["v"] == 0 else [self.trace((1, nx, nz), dt) for _ in range(k)]
        B = env.MPIBlockDiag(ops)
        sz = [r * nx * nz for r in rs]
        m, mb = dist(env, data((ny * nx * nz,), dt, 3), sz), dist(env, data((ny * nx * nz,), dt, 5), sz)
        d = B @ m
        out = dict(d=d, glob=d.asarray(), adj=B.H @ d)
        out["iter"], _, _, _, _, c = env.cgls(B, d, x0=mb, niter=cfg["niter"], damp=0.5 * cfg["v"], tol=0)
        out["cost"] = c
        L = env.MPILaplacian(dims=dims, axes=(0, 1, 2) if cfg["v"] < 2 else (0, 2), weights=(1, 2, 0.5)[:3 if cfg["v"] < 2 else 2], sampling=(1, 2, 0.5)[:3 if cfg["v"] < 2 else 2], dtype=dt)
        N = B.H @ B + self.EPS * L.H @ L
        out["ne"], _, c = env.cg(N, B.H @ d, x0=mb, niter=cfg["niter"], tol=0)
        out["ne_cost"] = c
        S = env.MPIStackedVStack([B, np.sqrt(self.EPS) * L])
        z = m.zeros_like()
        ds = env.StackedDistributedArray([d, z])
        out["stack"] = S @ m
        out["reg"], _, _, _, _, c = env.cgls(S, ds, x0=mb, niter=cfg["niter"], tol=0)
        out["reg_cost"] = c
        out["rms"] = ((out["reg"] - m).norm() / m.norm())
        return out

    def serial(self, dims, v, dtype, niter):
        ny, nx, nz = dims
        B = np.asarray(self.trace(dims, F8).todense())
        ax = (0, 1, 2) if v < 2 else (0, 2)
        L = lap_dense(dims, ax, (1, 2, 0.5)[:len(ax)], (1, 2, 0.5)[:len(ax)], False)
        m, mb = data((ny * nx * nz,), F8, 3), data((ny * nx * nz,), F8, 5)
        d = B @ m
        x, c = cgls_x(B, d, mb, 0.5 * v, niter)
        ne, nc = cg_x(B.T @ B + self.EPS * L.T @ L, B.T @ d, mb, niter)
        S = np.vstack([B, np.sqrt(self.EPS) * L])
        rx, rc = cgls_x(S, np.concatenate([d, 0 * m]), mb, 0.0, niter)
        out = dict(d=d, glob=d, adj=B.T @ d, iter=x, ne=ne, stack=[B @ m, np.sqrt(self.EPS) * (L @ m)], reg=rx, cost=c, ne_cost=nc, reg_cost=rc, rms=np.linalg.norm(rx - m) / np.linalg.norm(m))
        return {k: [np.real(u) for u in w] if isinstance(w, list) else np.real(w) for k, w in out.items()}


class Imaging(Flow):
    """Least-squares imaging: every rank models its sources from the whole model."""

    name = "least-squares imaging"
    dims = (12, 3, 7)  # sources, receivers, model

    def model(self, dims, dtype):
        ns, nr, nm = dims
        return data((ns, nr, nm), dtype, 7)

    def reg(self, dtype):
        return data((self.dims[2],) * 2, dtype, 9) / 4 + 3 * np.eye(self.dims[2], dtype=dtype)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        ns, nr, nm = dims
        dt = cfg["dtype"]
        rs = rows(ns, cfg["P"], cfg["how"])
        o = offsets(rs)
        mine = self.model(dims, dt)[o[env.rank]:o[env.rank + 1]]
        mats = [mine.reshape(-1, nm)] if cfg["v"] == 0 else list(mine) if cfg["v"] == 1 else [mine[0], mine[1:].reshape(-1, nm)]
        V = env.MPIVStack([pylops.MatrixMult(M, dtype=dt) for M in mats])
        m = dist(env, data((nm,), dt, 1), partition="BROADCAST")
        d = V @ m
        adj = V.H @ d
        x0 = env.DistributedArray(V.shape[1], partition=env.Partition.BROADCAST, dtype=dt)
        x0[:] = 0
        out = dict(d=d, glob=d.asarray(), adj=adj, dadj=V @ adj)
        x, _, _, r1, _, c = env.cgls(V, d, x0=x0, niter=cfg["niter"], tol=0, damp=0.25)
        R = env.MPILinearOperator(pylops.MatrixMult(self.reg(dt), dtype=dt))
        S = env.MPIStackedVStack([V, 2 * R])
        sd = env.StackedDistributedArray([d, m])
        sx, _, _, _, _, sc = env.cgls(S, sd, x0=x0, niter=cfg["niter"], tol=0)
        N = V.H @ V + R.H @ R
        nx, _, nc = env.cg(N, adj, x0=x0, niter=cfg["niter"], tol=0)
        return dict(out, x=x, cost=c, sx=sx, scost=sc, nx=nx, ncost=nc, snorm=sd.norm(), gap=(V @ sx - d).norm(), same=(sx - m).dot(m))

    def serial(self, dims, v, dtype, niter):
        ns, nr, nm = dims
        t = C16 if dtype == C16 else F8
        A, R, m = self.model(dims, t).reshape(-1, nm), self.reg(t), data((nm,), t, 1)
        d = A @ m
        H = lambda M: M.conj().T  # noqa: E731
        x, c = cgls_x(A, d, 0 * m, 0.25, niter)
        S, sd = np.vstack([A, 2 * R]), np.concatenate([d, m])
        sx, sc = cgls_x(S, sd, 0 * m, 0.0, niter)
        nx, nc = cg_x(H(A) @ A + H(R) @ R, H(A) @ d, 0 * m, niter)
        out = dict(d=d, glob=d, adj=H(A) @ d, dadj=A @ H(A) @ d, x=x, sx=sx, nx=nx, cost=c, scost=sc, ncost=nc, snorm=np.linalg.norm(sd), gap=np.linalg.norm(A @ sx - d), same=(sx - m) @ m)
        return {k: real_if(w, t) for k, w in out.items()}


class Deconvolution(Flow):
    """Multi-dimensional deconvolution: every rank has some frequencies."""

    name = "deconvolution"
    dims = (8, 3, 2)  # frequencies, ns, nr
    lengths = (8,)
    dtypes = (C16, C8)
    variants = (0, 1)
    ranks = (1, 2, 3, 4)
    hows = ("even", "back", "first", "last")

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        nf, ns, nr = dims
        nsl = rows(nf, cfg["P"], cfg["how"])
        o = offsets(nsl)
        nt, real = 2 * nf - 1 + cfg["v"] * 6, F4 if cfg["dtype"] == C8 else F8
        G = c24.kernel(tuple(nsl), ns, nr, cfg["dtype"])[o[env.rank]:o[env.rank + 1]]
        op = env.MPIMDC(G, nt=nt, nv=1 + cfg["v"], nfreq=nf, dt=0.5, dr=1.0, twosided=True, fftengine=("scipy", "numpy")[cfg["v"]], prescaled=not cfg["v"])
        n = nt * nr * (1 + cfg["v"])
        m = dist(env, data((n,), real, 2), partition="BROADCAST")
        d = op @ m
        x0 = dist(env, np.zeros(n, dtype=real if cfg["v"] else cfg["dtype"]), partition="BROADCAST")
        x, _, _, _, _, c = env.cgls(op, d, x0=x0, niter=cfg["niter"], tol=0)
        return dict(d=d, glob=d.asarray(), adj=op.H @ d, x=x, cost=c, res=(op @ x - d).norm())

    def oracle(self, cfg, obs):
        super().oracle(dict(cfg, dtype=F4 if cfg["dtype"] == C8 else F8), obs)

    def serial(self, dims, v, dtype, niter):
        nf, ns, nr = dims
        nt = 2 * nf - 1 + v * 6
        f, a = c24.serial((nf,), ns, nr, nt, 1 + v, 0.5, 1.0, True, "numpy", False, not v, C16)
        m = data((nt * nr * (1 + v),), F8, 2)
        d = f @ m
        x, c = cgls_x(f, d, 0 * m, 0.0, niter)
        x = x.real
        return dict(d=d, glob=d, adj=a @ d, x=x, cost=c, res=np.linalg.norm(f @ x - d))


class Sources(Flow):
    """The model is divided, the data are a sum over ranks (horizontal stack)."""

    name = "divided sources"
    dims = (12, 7)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        n, nd = dims
        dt = cfg["dtype"]
        rs = rows(n, cfg["P"], cfg["how"])
        o = offsets(rs)
        M = data((nd, n), dt, 4)[:, o[env.rank]:o[env.rank + 1]]
        k = M.shape[1]
        ops = [M] if cfg["v"] == 0 else [M[:, j:j + 1] for j in range(k)] if cfg["v"] == 1 else [M[:, :1], M[:, 1:]]
        H = env.MPIHStack([pylops.MatrixMult(np.ascontiguousarray(b), dtype=dt) for b in ops])
        m = dist(env, data((n,), dt, 6), rs)
        d = H @ m
        x0 = m.zeros_like()
        x, _, _, _, _, c = env.cgls(H, d, x0=x0, niter=cfg["niter"], tol=0, damp=1.0)
        G = H @ H.H
        y0 = d.zeros_like()
        y, _, gc = env.cg(G, d, x0=y0, niter=cfg["niter"], tol=0)
        return dict(d=d, adj=H.H @ d, x=x, cost=c, y=y, gcost=gc, back=H.H @ y, inner=[(H @ m).dot(d), m.dot(H.H @ d)], long=m.asarray())

    def serial(self, dims, v, dtype, niter):
        n, nd = dims
        t = C16 if dtype == C16 else F8
        M, m = data((nd, n), t, 4), data((n,), t, 6)
        d = M @ m
        x, c = cgls_x(M, d, 0 * m, 1.0, niter)
        G = M @ M.conj().T
        y, gc = cg_x(G, d, 0 * d, niter)
        return {k: [real_if(u, t) for u in w] if isinstance(w, list) else real_if(w, t) for k, w in dict(d=d, adj=M.conj().T @ d, x=x, cost=c, y=y, gcost=gc, back=M.conj().T @ y, inner=[d @ d, m @ (M.conj().T @ d)], long=m).items()}


class Smoothing(Flow):
    """Smoothing and regularised inversion with derivatives along the distributed axis."""

    name = "smoothing"
    dims = (18, 2)
    hows = ("even",)  # sums with derivatives need their layout
    lengths = (12, 13, 17)
    CASES = (("centered", 3, False), ("forward", 3, True), ("centered", 5, True))

    def fits(self, cfg):
        return min(rows(cfg["n"], cfg["P"], cfg["how"])) >= (4 if cfg["v"] == 2 else 2)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        n, k = dims
        dt = cfg["dtype"]
        rs = [r * k for r in rows(n, cfg["P"], cfg["how"])]
        kind, order, edge = self.CASES[cfg["v"]]
        D = env.MPIFirstDerivative(dims, kind=kind, order=order, edge=edge, sampling=1.0, dtype=dt)
        I = env.MPIBlockDiag([pylops.Identity(rs[env.rank], dtype=dt)])  # noqa: E741
        W = env.MPIBlockDiag([pylops.Diagonal((2 + np.arange(n * k) % 3).astype(dt)[offsets(rs)[env.rank]:offsets(rs)[env.rank + 1]], dtype=dt)])
        y = dist(env, data((n * k,), dt, 5), rs)
        A = W + 2.0 * (D.H @ D)
        x, _, c = env.cg(A, y, x0=y.zeros_like(), niter=cfg["niter"], tol=0)
        S = env.MPIStackedVStack([W, D])
        s, _, _, _, _, sc = env.cgls(S, env.StackedDistributedArray([y, y.zeros_like()]), x0=y.copy(), niter=cfg["niter"], tol=0)
        B = (I + D @ W) @ (3 * I - W)
        return dict(dy=D @ y, x=x, cost=c, s=s, scost=sc, dense=B @ y, denseadj=B.H @ y, pow=(A ** 2) @ y, rough=(D @ x).norm(1))

    def serial(self, dims, v, dtype, niter):
        n, k = dims
        t = C16 if dtype == C16 else F8
        kind, order, edge = self.CASES[v]
        D, I = d1_dense(dims, kind, edge, order), np.eye(n * k)  # noqa: E741
        W = np.diag(2 + np.arange(n * k) % 3).astype(float)
        y = data((n * k,), t, 5)
        A = W + 2 * D.T @ D
        x, c = cg_x(A, y, 0 * y, niter)
        s, sc = cgls_x(np.vstack([W, D]), np.concatenate([y, 0 * y]), y, 0.0, niter)
        B = (I + D @ W) @ (3 * I - W)
        out = dict(dy=D @ y, x=x, cost=c, s=s, scost=sc, dense=B @ y, denseadj=B.T @ y, pow=A @ A @ y, rough=np.abs(D @ x).sum())
        return {k: real_if(w, t) for k, w in out.items()}


class GradientDescent(Flow):
    """Weighted gradient regularisation by descent steps written by hand."""

    name = "gradient descent"
    dims = (12, 3)
    hows = ("even",)  # sums with derivatives need their layout
    lengths = (12, 13, 17)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        n, k = dims
        dt = cfg["dtype"]
        rs = [r * k for r in rows(n, cfg["P"], cfg["how"])]
        G = env.MPIGradient(dims, sampling=(1, 0.5), kind=("centered", "forward", "backward")[cfg["v"]], edge=bool(cfg["v"] % 2), dtype=dt)
        y = dist(env, data((n * k,), dt, 5), rs)
        x = y.copy()
        tv = []
        for _ in range(cfg["niter"]):
            g = G @ x
            tv.append(g.norm(1))
            x -= (x - y + G.H @ (g * 0.5)) * 0.125
        r = x - y
        return dict(x=x, g=G @ x, tv=np.array(tv), fit=r.norm(), peak=r.norm(np.inf), least=x.norm(-np.inf), inner=(G @ x).dot(G @ y), y=y)

    def serial(self, dims, v, dtype, niter):
        n, k = dims
        t = C16 if dtype == C16 else F8
        G = np.asarray(pylops.Gradient(dims, sampling=(1, 0.5), kind=("centered", "forward", "backward")[v], edge=bool(v % 2), dtype=F8).todense())
        y = data((n * k,), t, 5)
        x, tv = y.copy(), []
        for _ in range(niter):
            g = G @ x
            tv.append(np.abs(g).sum())
            x = x - 0.125 * (x - y + G.T @ g * 0.5)
        return dict(x=x, g=list((G @ x).reshape(2, -1)), tv=np.array(tv), fit=np.linalg.norm(x - y), peak=np.abs(x - y).max(), least=np.abs(x).min(), inner=(G @ x) @ (G @ y), y=y)


class Power(Flow):
    """Power iteration with Rayleigh quotients."""

    name = "power iteration"
    dims = (12, 1)

    def mats(self, n, t):
        return data((n, 4), t, 3), data((n,), F8, 8)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        n = dims[0]
        dt = cfg["dtype"]
        rs = rows(n, cfg["P"], cfg["how"])
        o = offsets(rs)
        M, w = self.mats(n, dt)
        me = slice(o[env.rank], o[env.rank + 1])
        V = env.MPIVStack([pylops.MatrixMult(M[me], dtype=dt)])
        W = env.MPIBlockDiag([pylops.Diagonal(w[me].astype(dt), dtype=dt)])
        A = V @ V.H + W if cfg["v"] == 0 else (W @ V) @ (V.H @ W) if cfg["v"] == 1 else 0.5 * (V @ V.H - W)
        x = dist(env, data((n,), dt, 1), rs)
        lam = []
        for _ in range(cfg["niter"]):
            y = A @ x
            lam.append(complex(x.conj().dot(y)) / float(x.norm()) ** 2)
            x = y * (1 / float(y.norm()))
        return dict(x=x, lam=np.array(lam), unit=x.norm(), proj=V.H @ x)

    def serial(self, dims, v, dtype, niter):
        t = C16 if dtype == C16 else F8
        M, w = self.mats(dims[0], t)
        W, K = np.diag(w), M @ M.conj().T
        A = K + W if v == 0 else W @ K @ W if v == 1 else 0.5 * (K - W)
        x, lam = data((dims[0],), t, 1), []
        for _ in range(niter):
            y = A @ x
            lam.append(complex(np.vdot(x, y)) / np.linalg.norm(x) ** 2)
            x = y / np.linalg.norm(y)
        return dict(x=x, lam=np.array(lam), unit=1.0, proj=M.conj().T @ x)


class Relaxation(Flow):
    """Relaxation with ghost cells: the same stencil on every piece."""

    name = "relaxation"
    dims = (14, 3)
    lengths = (14,)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        P, dt, ax = cfg["P"], cfg["dtype"], cfg["v"] % 2
        shape = dims if ax == 0 else dims[::-1]
        rs = rows(cfg["n"], P, cfg["how"])
        x = dist(env, data(shape, dt, 2), rs, ax)
        hist = []
        for _ in range(cfg["niter"]):
            front, back = env.rank > 0, env.rank < P - 1
            if cfg["v"] == 2:
                u = x.add_ghost_cells(cells_front=2, cells_back=2)
                w = 2
            else:
                u = x.add_ghost_cells(cells_front=1, cells_back=1)
                w = 1
            u = np.concatenate([np.zeros(self.pad(shape, ax, w), dt)] * (not front) + [u] + [np.zeros(self.pad(shape, ax, w), dt)] * (not back), axis=ax)
            x[:] = self.step(u, ax, w)
            hist.append(x.norm(1))
        return dict(x=x, hist=np.array(hist), glob=x.asarray())

    def pad(self, shape, ax, w):
        s = list(shape)
        s[ax] = w
        return s

    def step(self, u, ax, w):
        u = np.moveaxis(u, ax, 0)
        n = u.shape[0]
        r = u[w:n - w] * 2 + u[w - 1:n - w - 1] - u[w + 1:n - w + 1] * 3
        if w == 2:
            r = r + u[:n - 4] - u[4:] * 2
        return np.moveaxis(r / 4, 0, ax)

    def serial(self, dims, v, dtype, niter):
        t, ax = (C16 if dtype == C16 else F8), v % 2
        shape = dims if ax == 0 else dims[::-1]
        x, hist, w = data(shape, t, 2), [], 2 if v == 2 else 1
        for _ in range(niter):
            z = np.zeros(self.pad(shape, ax, w), t)
            x = self.step(np.concatenate([z, x, z], axis=ax), ax, w)
            hist.append(np.abs(x).ravel().sum())
        return dict(x=x, hist=np.array(hist), glob=x)

    def compare(self, k, xs, want, tol, cfg):
        if k == "hist":  # norm of the whole array: of its flat form
            want = np.asarray(want)
            xs = [np.asarray(x).reshape(want.shape) for x in xs]
        super().compare(k, xs, want, tol, cfg)

    def program(self, env, cfg):
        o = self.flow(env, cfg)
        return {k: see_any(env, v) for k, v in o.items()}


class Directions(Flow):
    """Alternating directions: scans along one axis, then along the other, redistributed in between."""

    name = "alternating directions"
    dims = (12, 14)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        P, dt = cfg["P"], cfg["dtype"]
        D = env.DistributedArray
        x = D.to_dist(data(dims, dt, 2), axis=0, local_shapes=shapes_for(dims, rows(cfg["n"], P, cfg["how"]), 0))
        sums = []
        for j in range(cfg["niter"]):
            ax = x.axis
            x[:] = np.cumsum(x.local_array, axis=1 - ax) / (2 + j)
            sums.append(x.ravel().norm(2))
            if cfg["v"] == 2:
                x = x + x * 0.5
            g = x.asarray()
            x = D.to_dist(g, axis=1 - ax, local_shapes=shapes_for(dims, rows(dims[1 - ax], P, cfg["how"]), 1 - ax) if cfg["v"] else None)
        f = x.ravel()
        b = D.to_dist(x.asarray(), partition=env.Partition.BROADCAST)
        return dict(x=x, sums=np.array(sums), per=[x.norm(1, axis=x.axis), x.norm(np.inf, axis=1 - x.axis)] if cfg["v"] == 9 else [x.norm(1, axis=x.axis)], flat=f.norm(), b=b, bnorm=b.ravel().norm())

    def serial(self, dims, v, dtype, niter):
        x, sums, ax = data(dims, C16 if dtype == C16 else F8, 2), [], 0
        for j in range(niter):
            x = np.cumsum(x, axis=1 - ax) / (2 + j)
            sums.append(np.linalg.norm(x))
            if v == 2:
                x = x * 1.5
            ax = 1 - ax
        return dict(x=x, sums=np.array(sums), per=[np.abs(x).sum(axis=ax)], flat=np.linalg.norm(x), b=x, bnorm=np.linalg.norm(x))


class Statistics(Flow):
    """Means, variances, standardised data, correlations."""

    name = "statistics"
    dims = (13, 4)
    lengths = (13,)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        n, k = dims
        dt = cfg["dtype"]
        rs = rows(n, cfg["P"], cfg["how"])
        x = dist(env, data(dims, dt, 2), rs)
        y = dist(env, data(dims, dt, 5), rs)
        one = x.zeros_like()
        one[:] = 1
        N = float(one.dot(one))
        mean = x.dot(one) / N
        c = x - one * mean
        out = dict(N=N, mean=mean, centred=c, sd=c.norm() if False else c.ravel().norm() / np.sqrt(N), cov=c.conj().dot(y - one * (y.dot(one) / N)) / N, cols=x.norm(2, axis=0), nz=(x * 1).norm(0, axis=0))
        z = c * (1 / float(out["sd"]))
        s = env.StackedDistributedArray([x, y, one])
        t = s * 2 - s
        out.update(z=z, stack=t, sdot=t.dot(t.conj()) if cfg["v"] else t.dot(t), total=env.StackedDistributedArray([x.ravel(), y.ravel()]).norm(), biggest=x.ravel().norm(np.inf))
        return out

    def serial(self, dims, v, dtype, niter):
        t = C16 if dtype == C16 else F8
        x, y = data(dims, t, 2), data(dims, t, 5)
        N, mean = float(x.size), x.mean()
        c = x - mean
        sd = np.sqrt((np.abs(c) ** 2).sum() / N)
        o = np.ones_like(x)
        return dict(N=N, mean=mean, centred=c, sd=sd, cov=(c.conj() * (y - y.mean())).sum() / N, cols=np.linalg.norm(x, axis=0), nz=np.count_nonzero(x, axis=0).astype(float), z=c / sd, stack=[x, y, o],
                    sdot=sum((u * (u.conj() if v else u)).sum() for u in (x, y, o)), total=np.sqrt((np.abs(x) ** 2).sum() + (np.abs(y) ** 2).sum()), biggest=np.abs(x).max())


class Chain(Flow):
    """Operators of all kinds one behind the other."""

    name = "chains of operators"
    dims = (12, 5)

    def fits(self, cfg):
        a, b = rows(cfg["n"], cfg["P"], cfg["how"]), split(cfg["n"], cfg["P"])
        return super().fits(cfg) and min(b) >= 2 and reachable(a, b) and reachable(b, a)

    def flow(self, env, cfg):
        dims = self.grid(cfg)
        n, k = dims
        dt = cfg["dtype"]
        rs = rows(n, cfg["P"], cfg["how"])
        o = offsets(rs)
        me = slice(o[env.rank], o[env.rank + 1])
        M, Q = data((n, k), dt, 3), data((k, n), dt, 4)
        V = env.MPIVStack([pylops.MatrixMult(M[me], dtype=dt)])
        H = env.MPIHStack([pylops.MatrixMult(np.ascontiguousarray(Q[:, me]), dtype=dt)])
        D = env.MPIFirstDerivative((n,), kind="centered", dtype=dt)
        E = env.MPISecondDerivative((n,), kind=("centered", "forward", "backward")[cfg["v"]], dtype=dt)
        R = env.MPILinearOperator(pylops.MatrixMult(data((k, k), dt, 6), dtype=dt))
        A = R @ H @ E @ D @ V
        B = D @ V @ R @ H if cfg["v"] else (E @ V @ H) * 2
        T = env.MPIStackedVStack([A, H @ V, R.H])
        m = dist(env, data((k,), dt, 1), partition="BROADCAST")
        x = dist(env, data((n,), dt, 2), rs)
        s = T @ m
        sol, _, _, _, _, c = env.cgls(T, s * 0.5, x0=m.zeros_like(), niter=1 + cfg["niter"] // 4, tol=0)
        return dict(am=A @ m, aam=A.H @ (A @ m), bx=B @ x, bhx=B.H @ x, tm=s, thm=T.H @ s, conj=A.conj() @ m, tr=A.T @ m, sol=sol, cost=c)

    def serial(self, dims, v, dtype, niter):
        n, k = dims
        t = C16 if dtype == C16 else F8
        M, Q, R = data((n, k), t, 3), data((k, n), t, 4), data((k, k), t, 6)
        D = d1_dense((n,), "centered", False, 3)
        E = np.asarray(pylops.SecondDerivative((n,), kind=("centered", "forward", "backward")[v], dtype=F8).todense())
        A = R @ Q @ E @ D @ M
        B = D @ M @ R @ Q if v else 2 * (E @ M @ Q)
        H = lambda X: X.conj().T  # noqa: E731
        T = np.vstack([A, Q @ M, H(R)])
        m, x = data((k,), t, 1), data((n,), t, 2)
        s = T @ m
        sol, c = cgls_x(T, s * 0.5, 0 * m, 0.0, 1 + niter // 4)
        out = dict(am=A @ m, aam=H(A) @ A @ m, bx=B @ x, bhx=H(B) @ x, tm=list(s.reshape(3, -1)), thm=H(T) @ s, conj=A.conj() @ m, tr=A.T @ m, sol=sol, cost=c)
        return {k: [real_if(u, t) for u in w] if isinstance(w, list) else real_if(w, t) for k, w in out.items()}


FAMILIES = [Poststack(), Imaging(), Deconvolution(), Sources(), Smoothing(), GradientDescent(), Power(), Relaxation(), Directions(), Statistics(), Chain()]
