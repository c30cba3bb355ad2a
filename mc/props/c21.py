"""dottest accepts exact adjoints and rejects wrong ones, on all ranks alike."""
import pylops

from .stk import *

BOUNDS = "1-4 ranks, square and rectangular matrices of up to 5x4, every single entry of the adjoint perturbed (real, imaginary), around the tolerance from both sides, 5 tolerances, raise/verb flags, 2 layouts; zoo operators and wrong adjoints of several kinds; some on 5-8 ranks and of up to 130 rows; NaN on one side and on both"


def custom(env, A, B, part_, dtype):
    """An operator that applies A forward and B as its adjoint."""

    class Op(env.MPILinearOperator):
        def __init__(self):
            super().__init__(shape=A.shape, dtype=np.dtype(dtype))

        def _go(self, M, x):
            return dist(env, M @ x.asarray(), partition=part_)

        def _matvec(self, x):
            return self._go(A, x)

        def _rmatvec(self, x):
            return self._go(B, x)

    return Op()


class Verdict(Family):
    tolerate_partial = True

    def program(self, env, cfg):
        A, B, u, v = self.case(cfg)
        op = custom(env, A, B, cfg["part"], cfg["dtype"])
        kw = {}
        if cfg.get("rtol") is not None:
            kw.update(rtol=cfg["rtol"], atol=cfg["atol"])
        if cfg.get("shape_given"):
            kw.update(nr=A.shape[0], nc=A.shape[1])
        if cfg.get("verb"):
            kw["verb"] = True
        if cfg.get("quiet") is not None:
            kw["raiseerror"] = not cfg["quiet"]
        U, V = dist(env, u, partition=cfg["part"]), dist(env, v, partition=cfg["part"])
        return bool(env.dottest(op, U, V, **kw)), np.array(U.local_array), np.array(V.local_array)

    def right(self, cfg):
        A, B, u, v = self.case(cfg)
        yy, xx = np.vdot(A @ u, v), np.vdot(u, B @ v)
        rtol, atol = (cfg["rtol"], cfg["atol"]) if cfg.get("rtol") is not None else (1e-6, 1e-21)
        return abs(xx - yy) <= atol + rtol * abs(yy), abs(xx - yy), atol + rtol * abs(yy)

    def oracle(self, cfg, obs):
        ok, d, t = self.right(cfg)
        for r, (x, u, v) in enumerate(obs):
            need(ok or cfg.get("quiet"), f"passed on rank {r} though the products differ by {d:.3g} (tolerance {t:.3g})")
            need(x == ok, f"returned {x} on rank {r}: the products differ by {d:.3g} (tolerance {t:.3g})")

    def on_raise(self, cfg, out):
        ok, d, t = self.right(cfg)
        for r, e in enumerate(out.exc):
            need(e[0] == "AssertionError", f"rank {r} raised {e}")
        need(not ok and not cfg.get("quiet"), f"raised though the products differ by {d:.3g} only (tolerance {t:.3g}): {out.first_exc()}" if ok else "raised though asked not to")


class Entries(Verdict):
    name = "perturbed adjoints"
    policies = (ASC, DESC)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 2],)

    def configs(self, tier):
        out = []
        k = 0
        for P in (1, 2, 3, 4):
            for shape in ((3, 3), (5, 4), (2, 4), (4, 1), (1, 4)) if P < 4 or tier != "quick" else ((5, 4),):
                for dtype in (F8, C16):
                    for i, j in itertools.product(range(shape[1]), range(shape[0])):
                        for dirn in ("re",) if dtype == F8 else ("re", "im", "both"):
                            for tol in (None, (1e-6, 0.0), (1e-3, 0.0), (0.0, 1e-2), (1e-4, 1e-1)):
                                for side in (0.3, 3.0):
                                    k += 1
                                    if tier == "quick" and k % 3:
                                        continue
                                    out.append(dict(P=P, shape=shape, dtype=dtype, at=(i, j), dirn=dirn, rtol=tol and tol[0], atol=tol and tol[1], side=side,
                                                    sign=1 if k % 2 else -1, quiet=(None, True, False)[k % 7 % 3], verb=k % 5 == 0, shape_given=k % 4 == 0, part=PARTS[(k // 3) % 2]))
        for P, shape in ((5, (7, 11)), (6, (13, 12)), (8, (17, 9)), (2, (60, 70)), (3, (130, 40))):  # more ranks, longer vectors
            for dtype in (F8, C16):
                for i, j in ((0, 0), (shape[1] - 1, shape[0] - 1), (shape[1] // 2, 0), (0, shape[0] - 1), (3, 5), (shape[1] - 1, 1)):
                    for tol in (None, (1e-3, 0.0), (0.0, 1e-2)):
                        for side in (0.3, 3.0):
                            k += 1
                            if k % 4 == 0 or tier != "quick":
                                out.append(dict(P=P, shape=shape, dtype=dtype, at=(i, j), dirn="re" if dtype == F8 else ("re", "im", "both")[k % 3], rtol=tol and tol[0], atol=tol and tol[1], side=side,
                                                sign=1 if k % 2 else -1, quiet=(None, True, False)[k % 7 % 3], verb=False, shape_given=k % 5 == 0, part=PARTS[(k // 3) % 2]))
        return out

    def case(self, cfg):
        dt = cfg["dtype"]
        A = data(cfg["shape"], dt, 3, nonzero=True)
        u, v = data((cfg["shape"][1],), dt, 11, nonzero=True), data((cfg["shape"][0],), dt, 12, nonzero=True)
        B = A.conj().T.copy()
        rtol, atol = (cfg["rtol"], cfg["atol"]) if cfg["rtol"] is not None else (1e-6, 1e-21)
        i, j = cfg["at"]
        yy = np.vdot(A @ u, v)
        c = dict(re=1, im=1j, both=(1 + 1j) / 2 ** .5)[cfg["dirn"]]
        size = cfg["side"] * (atol + rtol * abs(yy))
        # xx - yy = conj(u_i) eps v_j: of the wanted size, and in the wanted direction
        eps = size * cfg["sign"] * c / (np.conj(u[i]) * v[j])
        B[i, j] += eps if dt == C16 else np.real(eps)
        return A, B, u, v

    def right(self, cfg):
        ok, d, t = super().right(cfg)
        if cfg["atol"] is not None and cfg["atol"] == 0.0 and t == 0.0:
            return ok, d, t
        return ok, d, t


class Zero(Verdict):
    """Products that are zero, nan, of other sign, conjugate or swapped."""

    name = "wrong adjoints"
    KINDS = ("exact", "transpose", "conjugate", "negative", "zero", "double", "nan", "nan both", "swapped rows", "zero both", "near zero", "imag only")

    def configs(self, tier):
        return [dict(P=P, shape=s, dtype=d, kind=k, quiet=q, part=p) for P in (1, 2, 3, 4) for s in ((3, 3), (4, 2), (2, 5)) for d in (F8, C16, F4, C8) for k in self.KINDS for q in (None, True, False) for p in PARTS[:2]
                if not (P == 4 and s != (3, 3) and tier == "quick")] + [
                    dict(P=P, shape=s, dtype=d, kind=k, quiet=None, part=p) for P, s in ((6, (9, 13)), (2, (50, 40))) for d in (F8, C16) for k in self.KINDS for p in PARTS[:2]]

    def case(self, cfg):
        dt, k = cfg["dtype"], cfg["kind"]
        A = data(cfg["shape"], dt, 3, nonzero=True)
        u, v = data((cfg["shape"][1],), dt, 11, nonzero=True), data((cfg["shape"][0],), dt, 12, nonzero=True)
        H = A.conj().T
        if k == "transpose":
            B = A.T
        elif k == "conjugate":
            B = H.conj()
        elif k == "negative":
            B = -H
        elif k == "zero":
            B = 0 * H
        elif k == "double":
            B = 2 * H
        elif k == "nan":
            B = H.copy()
            B[0, 0] = np.nan
        elif k == "nan both":
            A, B = A.copy(), H.copy()
            A[-1, -1] = B[0, 0] = np.nan
        elif k == "swapped rows":
            B = H[::-1]
        elif k == "zero both":
            A = 0 * A
            B = 0 * H
        elif k == "near zero":
            A = 0 * A
            B = 0 * H
            B[0, 0] = 1e-12
        elif k == "imag only":
            B = H.real + (1j * 2 * H.imag if np.dtype(dt).kind == "c" else 0 * H)
        else:
            B = H
        return A, B.astype(dt), u, v


class Exact(Family):
    """Exact operators of the zoo pass, whatever the distribution."""

    name = "exact operators"
    policies = (ASC, DESC)

    def configs(self, tier):
        ops = ("A", "B", "R", "Q", "D", "S", "V", "U", "H", "W", "A.H", "R.H", "V.H", "2*A", "(1-2j)*R", "A+B", "A*B", "A**2", "R.conj()", "R.T", "D*S")
        return [dict(P=P, op=o, dtype=d, n=n + k) for P, n in ((1, 3), (2, 6), (3, 9), (4, 12), (6, 18), (2, 70)) for o in ops for d in (F8, C16) for k in (0, 1) if not (d == F8 and "j" in o)]

    def program(self, env, cfg):
        P, n = cfg["P"], cfg["n"]
        ns = {k: make(env, k, n, P, cfg["dtype"]) for k in "ABRQDSVUHW"}
        op = eval(cfg["op"], ns)
        d, m = self.doms(cfg)
        u, v = data((op.shape[1],), cfg["dtype"], 3, True), data((op.shape[0],), cfg["dtype"], 5, True)
        return bool(env.dottest(op, put(env, d, u), put(env, m, v))), bool(env.dottest(op, put(env, d, u), put(env, m, v), nr=op.shape[0], nc=op.shape[1], raiseerror=False, verb=True))

    def doms(self, cfg):
        o = cfg["op"]
        name = next(c for c in o if c in "ABRQDSVUHW")
        d, m = domain(name, cfg["n"], cfg["P"])
        return (m, d) if o.endswith((".H", ".T")) else (d, m)

    def oracle(self, cfg, obs):
        for r, o in enumerate(obs):
            need(o == (True, True), f"rejected on rank {r}: {o}")


FAMILIES = [Entries(), Zero(), Exact()]
