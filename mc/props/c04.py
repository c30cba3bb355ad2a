"""dot and norm are numpy's, whatever the distribution, and every rank gets the same number."""
from .common import *

BOUNDS = "1-5 ranks, some on 6-8 and some long arrays, 1-3 dimensions, every axis, every split of up to 5 elements over up to 4 ranks, 12 orders, 5 dtypes; orders up to 200 and negative and fractional ones"
ORDS = (None, 0, 1, 2, 3, 2.5, 0.5, "inf", "-inf", -1, -2, 4)


def o(x):
    return {"inf": np.inf, "-inf": -np.inf}.get(x, x)


def wnorm(x, ord, axis):
    """numpy's norm of the flattened array, or along an axis"""
    x = np.asarray(x).astype(complex if np.iscomplexobj(x) else float)
    if axis == -1:
        return np.linalg.norm(x.ravel(), o(ord))
    return np.linalg.norm(x, o(ord), axis)


class Reductions(Family):
    name = "dot and norms"
    policies = (ASC, DESC, ROT)

    def configs(self, tier):
        out = []
        dts = (F8, C16, F4, I8, C8)
        for P in (1, 2, 3, 4, 5) + ((6, 7) if tier != "quick" else ()):
            for shape in ((6,), (1,), (2,), (9,), (4, 3), (3, 5), (1, 4), (3, 2, 4), (40,), (13, 8)):
                for axis in range(len(shape)):
                    for p in PARTS:
                        for dt in dts[:3] if tier == "quick" else dts:
                            out.append(dict(P=P, shape=shape, axis=axis, part=p, dtype=dts[len(out) % 5] if tier == "quick" else dt,
                                            sizes=None))
        for P, shape in ((6, (9,)), (6, (4, 7)), (8, (5, 3)), (8, (21,)), (7, (3, 2, 9)), (3, (6000,)), (2, (900, 7)), (4, (3, 1500)), (2, (70000,))):
            for axis in range(len(shape)):
                for p in PARTS:
                    out.append(dict(P=P, shape=shape, axis=axis, part=p, dtype=dts[(len(out) + P) % 5], sizes=None))
        for P in (2, 3, 4):
            for n in (1, 2, 3, 4, 5):
                for c in compositions(n, P):
                    i = len(out)
                    shape, axis = (((n,), 0), ((n, 2), 0), ((3, n), 1))[i % 3]
                    out.append(dict(P=P, shape=shape, axis=axis, part="SCATTER", dtype=dts[i % 5], sizes=c))
        return out

    def program(self, env, cfg):
        x, y = data(cfg["shape"], cfg["dtype"], 1, nonzero=True), data(cfg["shape"], cfg["dtype"], 2)
        x.ravel()[::4] *= 1
        a = dist(env, x, cfg["sizes"], cfg["axis"], cfg["part"])
        b = dist(env, y, cfg["sizes"], cfg["axis"], cfg["part"])
        res = dict(ab=np.array(a.dot(b)), aa=np.array(a.dot(a)), aac=np.array(a.dot(a.conj())), n={}, nb={}, ax={})
        for q in ORDS:
            res["n"][str(q)] = np.array(a.norm(o(q)))
            if q not in (-1, -2):
                res["nb"][str(q)] = np.array(b.norm(o(q)))
        if cfg["part"] == "SCATTER" or cfg["axis"] == 0:
            for q in ORDS:
                res["ax"][str(q)] = np.array(a.norm(o(q), axis=cfg["axis"]))
        res["a"], res["b"] = meta(a), meta(b)
        return res

    def oracle(self, cfg, obs):
        x, y = data(cfg["shape"], cfg["dtype"], 1, nonzero=True), data(cfg["shape"], cfg["dtype"], 2)
        t = 2e-4 if cfg["dtype"] in (F4, C8) else 1e-9
        for k, w in (("ab", np.dot(x.ravel(), y.ravel())), ("aa", np.dot(x.ravel(), x.ravel())), ("aac", np.dot(x.ravel(), x.conj().ravel()))):
            all_equal(col(obs, k), k)
            same(obs[0][k], w, {"ab": "a.dot(b)", "aa": "a.dot(a)", "aac": "a.dot(conj a)"}[k], tol=t)
        for q in ORDS:
            k = str(q)
            for g, arr in (("n", x), ("nb", y), ("ax", x)):
                if k not in obs[0][g]:
                    continue
                ax = cfg["axis"] if g == "ax" else -1
                w = np.asarray(wnorm(arr, q, ax))
                for r, ob in enumerate(obs):
                    got = np.asarray(ob[g][k])
                    same(got, w, f"norm(ord={q}, axis={ax}) on rank {r}", tol=t)
                all_equal([ob[g][k] for ob in obs], f"norm(ord={q}, axis={ax})")
        sz = cfg["sizes"] if cfg["part"] == "SCATTER" else None
        check_global(col(obs, "a"), x, "the left operand afterwards", sz, cfg["axis"], cfg["part"])
        check_global(col(obs, "b"), y, "the right operand afterwards", sz, cfg["axis"], cfg["part"])


class Special(Family):
    """Zeros, infinities, NaN-free extremes, magnitudes, cancellation; norms named for matrices are refused."""

    name = "special values"
    policies = (ASC, DESC)
    CASES = {"zeros": np.zeros(7), "one zero rank": np.array([0, 0, 0, 0, 0, 3., -4.]), "negative": -np.arange(1., 8),
             "huge": np.array([1e150, -1e150, 1e140, 0, 1., 2, 3]), "tiny": np.array([1e-150] * 7), "inf": np.array([1., np.inf, 2, 3, 4, 5, -6]),
             "max last": np.array([1., 2, 3, 4, 5, 6, -70]), "max first": np.array([-70., 2, 3, 4, 5, 6, 1]),
             "imag": 1j * np.arange(-3., 4), "bools": np.array([1, 0, 0, 1, 1, 0, 1]).astype(bool),
             "large integers": np.array([3, -2, 0, 1, 5, -7, 4]) * 10 ** 8, "int32": np.array([3, -2, 0, 1, 5, -7, 4]).astype(I4) * 10 ** 8, "int16": np.array([30000, -2, 0, 1, -32000, -7, 4]).astype("int16"),
             "int8": np.array([100, -100, 3, 0, 127, -127, 90]).astype("int8"), "lowest int8": np.array([1, 2, -128, 0, 5, 6, -128]).astype("int8"), "uint8": np.array([255, 0, 200, 3, 255, 254, 1]).astype("uint8"),
             "lowest int64": np.array([1, -2 ** 63, 3, 0, 0, 5, -6]),
             "orders": np.array([1.5, -2., 2., 2., -0.5, 1., 2.]), "orders with a tie": np.array([-1.] * 5 + [1., 0.25])}
    INTS = ("large integers", "int32", "int16", "int8", "lowest int8", "uint8", "lowest int64")

    def configs(self, tier):
        return [dict(P=P, case=c, part=p) for P in (1, 2, 3, 4) for c in self.CASES for p in PARTS] + [
            dict(P=P, case=c, part=p) for P in (1, 2, 3) for c in ("fro", "nuc") for p in PARTS]

    def program(self, env, cfg):
        if cfg["case"] in ("fro", "nuc"):
            return dist(env, np.arange(5.), None, 0, cfg["part"]).norm(cfg["case"])
        x = self.CASES[cfg["case"]]
        a = dist(env, x, None, 0, cfg["part"])
        if cfg["case"].startswith("orders"):
            return dict(n={str(q): float(np.real(a.norm(q))) for q in (5, 7.5, 10, 20, 32, 50, 63, 64, 65, 80, 100, 128, 200, 0.1, 1 / 3, 0.01, -0.5, -3, -10, -64)})
        qs = (0, "inf", "-inf") + (() if cfg["case"] in ("bools",) else (1, None))
        if cfg["case"] in self.INTS:
            qs += (2, 3, -1) if np.all(x) else (2, 3, 2.5)
        return dict(n={str(q): float(np.real(a.norm(o(q)))) for q in qs})

    def on_raise(self, cfg, out):
        if cfg["case"] not in ("fro", "nuc"):
            raise Bad("every rank raised; " + str(out.first_exc()))
        for e in out.exc:
            need(e[0] == "ValueError", f"norm('{cfg['case']}') raised {e}")

    def oracle(self, cfg, obs):
        need(cfg["case"] not in ("fro", "nuc"), f"norm('{cfg['case']}') returned {obs[0]}")
        x = self.CASES[cfg["case"]]
        for q in obs[0]["n"]:
            w = float(wnorm(x, {"None": None, "inf": q, "-inf": q}[q] if q in ("None", "inf", "-inf") else float(q), -1))
            for r, ob in enumerate(obs):
                g = ob["n"][q]
                need(g == w or abs(g - w) <= 1e-9 * abs(w), f"norm(ord={q}) on rank {r} is {g}, should be {w}")


FAMILIES = [Reductions(), Special()]
