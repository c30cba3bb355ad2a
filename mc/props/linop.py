"""Deciding a distributed linear operator completely: apply it to every basis vector (and to dense vectors), forward and adjoint,
and compare with the matrix of the serial operator."""
import functools

from .common import *


def vectors(n, dtype, most=40, others=True):
    """Every basis vector (blocks of neighbours beyond `most`), and dense vectors."""
    dt = np.dtype(dtype)
    out = []
    step = max(1, -(-n // most))
    for k in range(0, n, step):
        v = np.zeros(n, dtype=dt)
        v[k:k + step] = 1 if step == 1 else data((min(step, n - k),), dt, k, nonzero=True)
        out.append(v)
    out.append(data((n,), dt, 5))
    out.append(data((n,), dt, 6) * dt.type(1j if dt.kind == "c" else 3))
    if others:  # vectors of another type, whose images are of the operator's
        if dt.kind == "c":
            out.append(data((n,), F8 if dt.itemsize == 16 else F4, 7))
        elif dt == np.dtype(F8):
            out.append(data((n,), I8, 8))
    for k, e in ((9, -60), (10, 60)):  # values of any size
        out.append(data((n,), dt, k) * dt.type(2.0 ** e))
    return out


def size_factor(v):
    """the power of two a vector was multiplied with"""
    m = np.max(np.abs(v)) if v.size else 1
    return 2.0 ** -60 if 0 < m < 2.0 ** -30 else 2.0 ** 60 if m > 2.0 ** 30 else 1.0


def resized(o, f):
    """a result (or a list of results) divided by f"""
    if f == 1.0:
        return o
    if isinstance(o, list):
        return [resized(x, f) for x in o]
    with np.errstate(all="ignore"):
        return dict(o, loc=o["loc"] / o["loc"].dtype.type(f) if o["loc"].dtype.kind in "fc" else o["loc"])


FORMS = ("tuple", "list", "array", "npints")


def dressed(v, form):
    """a tuple of numbers the way another caller would write it"""
    if not isinstance(v, tuple) or form in (None, "tuple"):
        return np.float64(v) if form in ("npints", "array") and isinstance(v, float) else v
    if form == "list":
        return list(v)
    if form == "array":
        return np.array(v)
    return tuple(np.int64(k) if isinstance(k, int) else np.float64(k) for k in v)


def type_form(dtype, form):
    return dict(list=str(np.dtype(dtype)), array=np.dtype(dtype).type).get(form, np.dtype(dtype))


def taken(a):
    """meta() of a result, which is overwritten then: it must not be part of another, or of the operator"""
    m = meta(a)
    if a.local_array.flags.writeable:
        a.local_array[...] = 77
    return m


class LinOp(Family):
    tolerate_partial = True
    modes = ("fwd", "adj")
    policies = (ASC, DESC, ROT)

    def policies_for(self, cfg, idx):
        return (self.policies[(idx // 2) % 3],)  # results of these operators under every schedule: C08, C09

    vec_most = 40
    vec_others = True

    # -- to be given
    def build(self, env, cfg):
        raise NotImplementedError

    def serial(self, cfg):
        """the dense matrix"""
        raise NotImplementedError

    def inp(self, env, cfg, op, vec, fwd):
        return dist(env, vec)

    def may_raise(self, cfg):
        """the input is outside what the operator supports: it may reject it, it may not get it wrong"""
        return False

    def out(self, cfg, fwd):
        """expected layout: keyword arguments of check_global"""
        return {}

    def dt(self, cfg):
        return cfg.get("dtype", F8)

    def observe(self, env, cfg, op, y):
        return taken(y)

    # --
    def apply(self, env, cfg, op, x, fwd):
        return op.matvec(x) if fwd else op.rmatvec(x)

    def program(self, env, cfg):
        op = self.build(env, cfg)
        fwd = cfg["mode"] == "fwd"
        M, N = (int(k) for k in op.shape)
        res = []
        for v in self.vectors(cfg, N if fwd else M):
            x = self.inp(env, cfg, op, v, fwd)
            res.append(self.observe(env, cfg, op, self.apply(env, cfg, op, x, fwd)))
        return dict(shape=(M, N), dtype=str(np.dtype(op.dtype)), res=res)

    def matrix(self, cfg):
        return np.asarray(self.serial(cfg))

    def vectors(self, cfg, n):
        if cfg.get("few"):
            return [data((n,), self.dt(cfg), 5)]
        return vectors(n, self.dt(cfg), self.vec_most, self.vec_others)

    def few(self, cfg, v, fwd):
        """the image of a vector, where the whole matrix would be too large"""
        B = self.matrix(cfg)
        return (B if fwd else B.conj().T) @ v

    def check_few(self, cfg, obs):
        fwd = cfg["mode"] == "fwd"
        m, n = obs[0]["shape"]
        for k, v in enumerate(self.vectors(cfg, n if fwd else m)):
            self.check_result(cfg, [o["res"][k] for o in obs], self.few(cfg, v, fwd), ("forward" if fwd else "adjoint") + f" of vector {k}", fwd)

    def check_result(self, cfg, obs, want, what, fwd):
        check_global(obs, want, what, **self.out(cfg, fwd))

    def oracle(self, cfg, obs):
        if cfg.get("few"):
            return self.check_few(cfg, obs)
        A = self.matrix(cfg)
        fwd = cfg["mode"] == "fwd"
        for r, o in enumerate(obs):
            need(o["shape"] == A.shape, f"operator shape {o['shape']} on rank {r}, should be {A.shape}")
        B = A if fwd else A.conj().T
        for k, v in enumerate(self.vectors(cfg, B.shape[1])):
            name = "forward" if fwd else "adjoint"
            n = B.shape[1]
            f = size_factor(v)
            self.check_result(cfg, [resized(o["res"][k], f) for o in obs], B @ (v / f if f != 1 else v), f"{name} of " + (f"basis vector {k}" if k < n <= self.vec_most else f"vector {k}"), fwd)

    def on_raise(self, cfg, out):
        if not self.may_raise(cfg):
            super().on_raise(cfg, out)

    def on_partial(self, cfg, out):
        if not self.may_raise(cfg):
            super().on_partial(cfg, out)

    def real_ok(self, cfg):
        return not self.may_raise(cfg)


def reachable(have, want):
    """Can every rank assemble its `want` elements out of its own `have` and those of its neighbours?"""
    h, w = offsets(have), offsets(want)
    P = len(have)
    for r in range(P):
        lo, hi = w[r], w[r + 1]
        front, back = max(0, h[r] - lo), max(0, hi - h[r + 1])
        if r == 0 and front or r == P - 1 and back:
            return False
        if front and front > have[r - 1] or back and back > have[r + 1]:
            return False
    return True


def frozen(f):
    c = functools.lru_cache(maxsize=256)(f)
    return c
