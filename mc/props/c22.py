"""Operators and arrays keep no history: after any calls, a call gives what it gives as the very first in a new process."""
import functools

import pylops

from .sol import *

BOUNDS = ("every history of up to 3 (thorough: 4) applications out of 6 (forward and adjoint of 3 vectors, one with another split) as a window of a de Bruijn sequence on one operator; of up to 2 (3) "
          "out of up to 14 with H, T, conj, scaled and composed forms mixed in; of up to 3 (5) of forward and adjoint of 2 vectors given in one object changed in place; for every ordered pair out of 49 operators (quick: every fifth), on the same or different groups of ranks, all histories of up to 2 (3) out of 4 applications; "
          "1-4 ranks, each operator also on 5 or 6. After every call: inputs, matrices and earlier results unchanged, fresh memory; results are overwritten before the next call")


def debruijn(k, n):
    """a sequence over range(k) containing every word of length n"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


# ----------------------------------------------------------------------------------------------------------------- the zoo
SYS = {"A": C16, "R": F8, "V": F8, "U": C16, "H": F8, "W": C16, "D": F8, "S": F8, "Pu": F4, "R.H*R": F8, "2j*A": C16, "A+P": C16, "VS(A, R)": F8, "BD(A, R)": C16, "BD(W, A)": F8, "VS(V, W)": F8,
       "P.H": C16, "VS(R, D)": F8, "A.H*P": F4}
DER = dict(
    fd_fwd=("MPIFirstDerivative", lambda P: (2 * P + 1,), dict(kind="forward")), fd_bwd=("MPIFirstDerivative", lambda P: (P + 1, 2), dict(kind="backward", sampling=2.)),
    fd_c3=("MPIFirstDerivative", lambda P: (2 * P + 1, 2), dict(kind="centered", edge=True)), fd_c5=("MPIFirstDerivative", lambda P: (4 * P + 1,), dict(kind="centered", order=5)),
    sd_fwd=("MPISecondDerivative", lambda P: (2 * P + 2,), dict(kind="forward")), sd_bwd=("MPISecondDerivative", lambda P: (2 * P + 1, 2), dict(kind="backward", sampling=.5)),
    sd_c=("MPISecondDerivative", lambda P: (3 * P,), dict(kind="centered", edge=True)), lap=("MPILaplacian", lambda P: (2 * P + 1, 3), dict(axes=(0, 1), weights=(1, 2))),
    lap1=("MPILaplacian", lambda P: (P + 1, 4), dict(axes=(1,), weights=(1,), sampling=(1,))), grad=("MPIGradient", lambda P: (2 * P + 1, 3), dict(sampling=(1, 2))))
DER.update({k + "_b": DER[k] for k in ("fd_fwd", "fd_c3", "sd_bwd", "sd_c", "lap", "grad")})  # given broadcast vectors
FRED = {f"fred{a}{b}{t}": (bool(a), bool(b), (F8, C16, F4)[t]) for a in (0, 1) for b in (0, 1) for t in ((0,) if a == b else (1, 2))}
MDCS = dict(mdc=dict(), mdcc=dict(conj=True), mdct=dict(twosided=False), mdcm=dict(usematmul=True, saveGt=False))
MORE = ("masked", "wrapb", "multi", "matvec_h")
ZOO = tuple(SYS) + tuple(DER) + tuple(FRED) + tuple(MDCS) + MORE


def sides(item, P):
    """(layout of the model, layout of the data, dtype)"""
    if item in SYS:
        s = System(item, 2 * P + 1, P, SYS[item])
        return s.sides() + (SYS[item],)
    if item in DER:
        dims = DER[item][1](P)
        n = int(np.prod(dims))
        d = ("BROADCAST", n) if item.endswith("_b") else ("SCATTER", split(n, P))
        return d, [d] * 2 if item.startswith("grad") else d, F8
    if item in FRED:
        k = sum(2 + r % 2 for r in range(P))
        return ("BROADCAST", k * 6), ("BROADCAST", k * 4), FRED[item][2]
    if item in MDCS:
        return ("BROADCAST", 2 * (4 * P + 1)), ("BROADCAST", 2 * (4 * P + 1)), F8
    if item == "masked":
        return ("SCATTER", [3] * P), ("SCATTER", [2] * P), F8
    if item == "wrapb":
        return ("BROADCAST", 4), ("BROADCAST", 3), C16
    if item == "multi":
        return ("SCATTER", [5] * P), ("SCATTER", [4] * P), C16
    return ("BROADCAST", 3), ("SCATTER", [2] * P), F8  # matvec_h


def build(env, item, P, me, kw):
    """-> operator, arrays of the caller that it was built from, what they were before"""
    mine = caller_data(item, P, me)
    was = [m.copy() for m in mine]
    return build_with(env, item, P, me, kw, mine), mine, was


def caller_data(item, P, me):
    if item in FRED:
        nsl = [2 + r % 2 for r in range(P)]
        return [pieces(data((sum(nsl), 2, 3), FRED[item][2], 4), nsl)[me].copy()]
    if item in MDCS:
        return [pieces(data((2 * P, 2, 2), C16, 4), [2] * P)[me].copy()]
    if item == "masked":
        return [data((2, 3), F8, me)]
    if item == "wrapb":
        return [data((3, 4), C16, 5)]
    if item == "multi":
        return [data((2, 2 + j), C16, me + j) for j in range(2)]
    if item == "matvec_h":
        return [data((2, 3), F8, me + 50)]
    return []


def build_with(env, item, P, me, kw, mine):
    mult = lambda m: pylops.MatrixMult(m, dtype=m.dtype)  # noqa: E731
    if item in SYS:
        return System(item, 2 * P + 1, P, SYS[item]).build(env, **kw)
    if item in DER:
        cls, dims, a = DER[item]
        return getattr(env, cls)(dims(P), dtype=np.float64, **a, **kw)
    if item in FRED:
        sv, mm, dt = FRED[item]
        return env.MPIFredholm1(mine[0], nz=2, saveGt=sv, usematmul=mm, dtype=np.dtype(dt), **kw)
    if item in MDCS:
        return env.MPIMDC(mine[0], nt=4 * P + 1, nv=1, nfreq=2 * P, **MDCS[item], **kw)
    if item == "wrapb":
        return env.MPILinearOperator(mult(mine[0]), **kw)
    if item == "matvec_h":
        return env.MPIVStack([mult(mine[0])], **kw)
    return env.MPIBlockDiag([mult(m) for m in mine], **kw, **(dict(mask=[0] * P) if item == "masked" else {}))


def other_split(d, P):
    """another split, one element moved to a neighbour"""
    if d[0] == "BROADCAST" or P == 1:
        return d
    e = list(d[1])
    k = int(np.argmax(e))
    e[k] -= 1
    e[k + 1 if k + 1 < P else k - 1] += 1
    return (d[0], e)


def vector(env, lay, item, P, k, kw):
    """the k-th vector of that layout: 0, 1: two different ones, 2: another split (where the operator may be given one), 3: of another type, 4, 5: with fractions, small and large"""
    alt = k == 2 and item in RESPLIT
    kw = dict(kw, mask=[0] * P) if item == "masked" else kw

    def one(d, salt):
        t = np.dtype(sides(item, P)[2])
        if k == 3:
            v = data((size_of(d),), F8 if t.kind == "c" else I8, salt)
        else:
            v = data((size_of(d),), t, salt)
            if k > 3:
                v = v / t.type(3.0 if k == 4 else 3e5)
        return put(env, other_split(d, P) if alt else d, v, **kw)

    if isinstance(lay, list):
        return env.StackedDistributedArray([one(d, 3 + 5 * k + j) for j, d in enumerate(lay)], **{q: v for q, v in kw.items() if q == "base_comm"})
    return one(lay, 3 + 5 * k)


RESPLIT = {"A", "R", "R.H*R", "2j*A", "A.H*P", "P.H"}


def parts(env, x):
    return x.distarrays if isinstance(x, env.StackedDistributedArray) else [x]


def scribble(env, x, k):
    for a in parts(env, x):
        a.local_array[...] = np.array(-1000 - k).astype(a.local_array.dtype)


LETTERS = ("f0", "f1", "f2", "a0", "a1", "a2")
TYPES = ("f3", "f4", "f5", "a3", "a4", "a5")
FORMS = {"Hf": lambda op: op.H, "Ha": lambda op: op.H, "Tf": lambda op: op.T, "cf": lambda op: op.conj(), "ca": lambda op: op.conj(), "2f": lambda op: 2 * op, "2a": lambda op: op * 2,
         "nf": lambda op: -op, "qf": lambda op: op.H * op}


def call(env, op, item, P, letter, kw):
    """-> input, result"""
    m, d, _ = sides(item, P)
    if letter in LETTERS + TYPES:
        fwd = letter[0] == "f"
        x = vector(env, m if fwd else d, item, P, int(letter[1]), kw)
        return x, (op.matvec if fwd else op.rmatvec)
    g = FORMS[letter](op)
    fwd = letter[1] == "f"
    side = (m if fwd else d) if letter[0] not in "HT" else (d if fwd else m)
    x = vector(env, side, item, P, 1, kw)
    return x, (g.matvec if fwd else g.rmatvec)


def forms_for(item):
    out = [q for q in FORMS]
    if item.startswith("grad") or item.startswith("mdc"):
        out = [q for q in out if q not in ("Tf", "cf", "ca", "nf", "qf")]
    return out


class Ref:
    """the first call in a new process"""

    cache = {}

    @classmethod
    def get(cls, item, P, letter):
        if (item, P, letter) not in cls.cache:
            from .. import engine

            def program(env):
                op = build(env, item, P, env.rank, {})[0]
                x, f = call(env, op, item, P, letter, {})
                try:
                    return see(env, f(x))
                except (ValueError, NotImplementedError, TypeError) as e:
                    return type(e).__name__
            saved = engine.Universes.cache.get(P)
            out = engine.execute(program, P, fresh=True)
            if saved is not None:
                engine.Universes.cache[P] = saved
            cls.cache[item, P, letter] = None if out.trouble() or out.unsupported or out.raised() else out.value
            if cls.cache[item, P, letter] is None:
                cls.cache[item, P, letter] = "bad: " + str(out.trouble() or out.first_exc() or out.unsupported)
        return cls.cache[item, P, letter]


def close(a, b, where):
    """None or what is different"""
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{where}: {a if isinstance(a, str) else 'a result'}, should be {b if isinstance(b, str) else 'a result'}"
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return f"{where}: {len(a)} parts"
        return next((q for q in (close(x, y, f"{where}, part {j}") for j, (x, y) in enumerate(zip(a, b))) if q), None)
    for k in a:
        if k != "loc" and a[k] != b[k]:
            return f"{where}: {k} is {a[k]}, should be {b[k]}"
    try:
        same(a["loc"], b["loc"], where)
    except Bad as e:
        return str(e)


class Histories(Family):
    name = "histories of one operator"
    policies = (ASC, DESC)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 2],)

    def configs(self, tier):
        out = []
        for item in ZOO:
            for P in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                out.append(dict(P=P, objs=((item, 0),), letters=LETTERS, depth=3 if tier == "quick" else 4, off=len(out)))
                out.append(dict(P=P, objs=((item, 0),), letters=("f0", "f1", "a0", "a1"), depth=3 if tier == "quick" else 5, off=len(out), inplace=True))
                out.append(dict(P=P, objs=((item, 0),), letters=("f0", "f2", "a0", "a1") + tuple(forms_for(item)), depth=2 if tier == "quick" else 3, off=len(out)))
                out.append(dict(P=P, objs=((item, 0),), letters=("f3", "f4", "f5", "a3", "a4", "a5") if tier != "quick" else ("f3", "f4", "a3", "a4") if len(out) % 2 else ("f4", "f5", "a3", "a5"), depth=3, off=len(out)))
            P = 5 + len(out) % 2
            out.append(dict(P=P, objs=((item, 0),), letters=("f0", "f1", "a0", "a1"), depth=2 if tier == "quick" else 3, off=len(out), inplace=bool(len(out) // 2 % 2)))
        return out

    def history(self, cfg):
        alpha = [(j, q) for j in range(len(cfg["objs"])) for q in cfg["letters"]]
        s = debruijn(len(alpha), cfg["depth"])
        # start elsewhere in the cycle (keeps every window: the sequence is cyclic)
        n = len(s) - cfg["depth"] + 1
        k = cfg["off"] * 7 % n
        s = [s[(k + j) % n] for j in range(len(s))]
        return [alpha[j] for j in s]

    def group(self, env, cfg, where):
        """communicator, its size, own rank; None: the world; 1: a group of its own for the even and the odd ranks; 2: the world in reverse"""
        w = env.world
        if not where:
            return {}, w.Get_size(), env.rank
        c = w.Split(env.rank % 2, env.rank) if where == 1 else w.Split(0, -env.rank)
        return dict(base_comm=c), c.Get_size(), c.Get_rank()

    def program(self, env, cfg):
        objs = []
        for item, where in cfg["objs"]:
            kw, P, me = self.group(env, cfg, where)
            op, mine, was = build(env, item, P, me, kw)
            objs.append((item, kw, P, me, op, mine, was))
        first, dev, trouble = {}, [], []
        kept = {}
        for step, (j, letter) in enumerate(self.history(cfg)):
            item, kw, P, me, op, mine, copies = objs[j]
            x, f = call(env, op, item, P, letter, kw)
            if cfg.get("inplace"):  # always the same object, given the values of the vector in place
                buf = kept.setdefault((j, letter[0]), x)
                for a, b in zip(parts(env, buf), parts(env, x)):
                    a[:] = b.local_array.copy()
                x = buf
            elif step % 3 and (j, letter) in kept:  # the same vector object again
                x = kept[j, letter]
            kept.setdefault((j, letter), x)
            before = see(env, x)
            try:
                y = f(x)
            except (ValueError, NotImplementedError, TypeError) as e:
                res = type(e).__name__
            else:
                res = see(env, y)
                if y is x or any(np.shares_memory(a.local_array, b.local_array) for a in parts(env, y) for b in parts(env, x)):
                    trouble.append(f"step {step} ({letter} of {item}): the result shares memory with the input")
                elif any(np.shares_memory(a.local_array, m) for a in parts(env, y) for m in mine):
                    trouble.append(f"step {step} ({letter} of {item}): the result shares memory with the operator's data")
                else:
                    scribble(env, y, step)
            if close(before, see(env, x), "x") or any(p["loc"].tobytes() != q["loc"].tobytes() for p, q in zip(*([v] if isinstance(v, dict) else v for v in (before, see(env, x))))):
                trouble.append(f"step {step} ({letter} of {item}): the input was changed")
            if any(m.tobytes() != c.tobytes() for m, c in zip(mine, copies)):
                trouble.append(f"step {step} ({letter} of {item}): the operator's data were changed")
            if (j, letter) not in first:
                first[j, letter] = res
            else:
                d = close(res, first[j, letter], f"step {step} ({letter} of {item})")
                if d:
                    dev.append(d)
            if len(dev) + len(trouble) > 6:
                break
        return dict(first=[(j, q, v) for (j, q), v in first.items()], dev=dev[:3], trouble=trouble[:3], me=[(o[2], o[3]) for o in objs])

    def oracle(self, cfg, obs):
        for r, o in enumerate(obs):
            need(not o["trouble"], f"rank {r}: " + "; ".join(o["trouble"]))
            need(not o["dev"], f"rank {r}: " + "; ".join(o["dev"]))
            for j, letter, v in o["first"]:
                item = cfg["objs"][j][0]
                P, me = o["me"][j]
                ref = Ref.get(item, P, letter)
                need(not isinstance(ref, str), f"{letter} of {item} on {P} ranks: {ref}")
                d = close(v, ref[me], f"rank {r}: {letter} of {item} (object {j}), the first time")
                need(d is None, f"{d} as in a new process")


class Pairs(Histories):
    name = "ordered pairs of operators"

    def configs(self, tier):
        out = []
        for a, b in itertools.product(range(len(ZOO)), repeat=2):
            i = a * len(ZOO) + b
            for k in range(1 if tier == "quick" else 3):
                where = ((0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 2))[(a + 2 * b + k) % 6]
                P = (2, 3, 4)[(a + b + k) % 3] if tier == "quick" else (2, 3, 4)[(a + b + k) % 3]
                if tier == "quick" and (a + b * 3) % 5:
                    continue
                out.append(dict(P=P, objs=((ZOO[a], where[0]), (ZOO[b], where[1])), letters=("f1", "a1") if (a + b) % 3 else ("f0", "a2"), depth=2 if tier == "quick" else 3, off=i))
        return out


FAMILIES = [Histories(), Pairs()]
