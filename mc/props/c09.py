"""Results do not depend on message timing or on what fresh memory holds; replicated values are the same bits on every rank."""
import pickle

from . import cat
from .c08 import SHORT3
from .c28 import Groups  # noqa: F401
from .cat import *

BOUNDS = ("every work of a catalogue of the whole interface on 1-6 ranks, and every array operation on every split of small arrays (incl. empty pieces): twice, with "
          "different contents of fresh memory, under four extreme schedules; all schedules on 2 ranks and, for the shorter works, on 3")


def bits(x):
    """a comparable form, to the last bit; NaN is NaN"""
    if isinstance(x, dict):
        return {k: bits(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [bits(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic)):
        a = np.ascontiguousarray(x)
        if a.dtype.kind in "fc":
            a = np.where(np.isnan(a), np.array(np.nan, dtype=a.dtype), a)
        return (a.shape, str(a.dtype), a.tobytes())
    return x


def differ(a, b, where="result"):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{where}[{k}]"
            d = differ(a[k], b[k], f"{where}[{k}]")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return where
        for j, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{where}.{j}")
            if d:
                return d
        return None
    return None if bits(a) == bits(b) and type(a) is type(b) else f"{where} ({short_(a)} and {short_(b)})"


def short_(a):
    return repr(a)[:120].replace("\n", " ")


def replicated(a, b, where, anyvalue):
    """do two ranks agree where they have to?"""
    if isinstance(a, dict):
        skip = {"rank", "loc", "ls"} if a.get("part") == "SCATTER" else {"rank"}
        for k in a:
            if k not in skip:
                d = replicated(a[k], b[k], f"{where}[{k}]", anyvalue)
                if d:
                    return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return where
        for j, (x, y) in enumerate(zip(a, b)):
            d = replicated(x, y, f"{where}.{j}", anyvalue)
            if d:
                return d
        return None
    if anyvalue:
        return None
    return None if bits(a) == bits(b) else f"{where} ({short_(a)} and {short_(b)})"


class Twice(Family):
    policies = (ASC,)

    def again(self, cfg):
        from .. import engine, simmpi

        outs = []
        for fill, (e, y, d) in ((0, (False, False, True)), (1, (True, True, False)), (2, (True, False, True))):
            engine.FILL[0] = fill
            try:
                outs.append(engine.execute(lambda env: self.program(env, cfg), cfg["P"], simmpi.Policy(e, y, d, 1)))
            finally:
                engine.FILL[0] = 0
        return outs

    def judge(self, cfg, out):
        t = super().judge(cfg, out)
        if t or out.unsupported:
            return t
        real = out.stdout is None
        if real:
            return None
        for j, o in enumerate(self.again(cfg)):
            what = ("under another schedule", "with other contents of fresh memory", "with other contents of fresh memory and another schedule")[j]
            if o.unsupported:
                return None
            if o.trouble():
                return f"{what}: {o.trouble()}"
            if o.kind != out.kind:
                return f"{what}: {o.first_exc() or 'no error'} instead of {out.first_exc() or 'no error'}"
            for r in range(out.size):
                d = differ(out.value[r], o.value[r])
                if d:
                    return f"{what}, rank {r} has another {d}"
        return None

    local = False

    def oracle(self, cfg, obs):
        for r in range(1, len(obs)):
            d = replicated(obs[0], obs[r], "result", self.islocal(cfg))
            need(d is None, f"rank 0 and rank {r} do not agree on {d}")

    def islocal(self, cfg):
        return False

    def on_raise(self, cfg, out):
        super().on_raise(cfg, out)


class Works(Twice):
    name = "catalogue"

    def configs(self, tier):
        return [dict(P=P, work=w, rough=g) for P in ((1, 2, 3, 4, 5, 6) if tier == "quick" else range(1, 10)) for w in WORKS for g in (True, False)
                if not (tier == "quick" and (g is False and P % 2 or P > 4 and w in ("expression", "stackedexpr")))]

    def islocal(self, cfg):
        return cfg["work"] in ("ghosts", "ghosts2", "masked", "resplit_local")

    def program(self, env, cfg):
        cat.ROUGH[0] = cfg["rough"]
        try:
            return run(cfg["work"], env)
        finally:
            pass


class Splits(Twice):
    name = "every split"
    OPS = ("add", "sub", "mul", "conj", "copy", "zeros", "scale", "iadd", "asarray", "dot", "ravel") + tuple(("norm", o, ax) for o in ("0", "1", "2", "2.5", "inf", "-inf") for ax in (-1, "part"))

    def configs(self, tier):
        out, i = [], 0
        for P, n in ((1, 2), (2, 3), (3, 3), (4, 3)) if tier == "quick" else ((1, 3), (2, 5), (3, 5), (4, 4), (5, 4)):
            for shape, axis in (((n,), 0), ((n, 2), 0), ((2, n), 1), ((n, 2, 2), 0)):
                for c in compositions(n, P):
                    for op in self.OPS:
                        for part_ in ("SCATTER",) + (("BROADCAST",) if c == tuple(split(n, P)) else ()):
                            i += 1
                            if tier == "quick" and (i * 3 + i // 7) % 4:
                                continue
                            out.append(dict(P=P, shape=shape, axis=axis, split=c, op=op, part=part_, dtype=(F8, C16, F4)[i // 5 % 3], rough=True))
        return out

    def program(self, env, cfg):
        cat.ROUGH[0] = True
        try:
            x = cat.data(cfg["shape"], cfg["dtype"], 1)
            y = cat.data(cfg["shape"], cfg["dtype"], 2)
        finally:
            cat.ROUGH[0] = False
        s = None if cfg["part"] != "SCATTER" else list(cfg["split"])
        X, Y = (dist(env, v, s, cfg["axis"], cfg["part"]) for v in (x, y))
        op = cfg["op"]
        k = K(env)
        if isinstance(op, tuple):
            ax = -1 if op[2] == -1 else cfg["axis"] if s is not None else 0
            return k.see(X.norm(float(op[1]), axis=ax))
        if op == "iadd":
            X += Y
            return k.see(X)
        if op == "asarray":
            return k.see(X.asarray())
        return k.see(dict(add=lambda: X + Y, sub=lambda: X - Y, mul=lambda: X * Y, conj=X.conj, copy=X.copy, zeros=X.zeros_like, scale=lambda: 0.3 * X,
                          dot=lambda: X.dot(Y), ravel=X.ravel)[op]())

    def on_raise(self, cfg, out):
        if cfg["op"] == "ravel" and cfg["axis"]:
            return
        super().on_raise(cfg, out)


class Explored(Family):
    name = "all schedules"
    explore = True

    def configs(self, tier):
        return [dict(P=P, work=w) for P in (2, 3) for w in WORKS if not (tier == "quick" and (P == 3 and (w not in SHORT3 or w in ("stackedarrays", "multi", "resplit", "sd_centered", "fd_centered5")) or w in ("expression", "stackedexpr", "cgls_derivative", "cgls_stacked")))]

    def program(self, env, cfg):
        cat.ROUGH[0] = False
        return run(cfg["work"], env)

    def oracle(self, cfg, obs):
        pass  # explore_case compares the results of all schedules


FAMILIES = [Works(), Splits(), Explored()]
