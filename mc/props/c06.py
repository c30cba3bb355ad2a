"""Malformed arrays, operands and arguments are rejected with an error; never a silent result."""
import pylops

from .stk import *

BOUNDS = "1-4 ranks; every pair of layouts (partition x split x mask) of two arrays under every binary operation, every rank on which a local shape can be off, every operator's wrong sizes, partitions and parameters"

VE, IE, NI, TE, AE = "ValueError", "IndexError", "NotImplementedError", "TypeError", "AssertionError"


class Reject(Family):
    """program must raise: on all ranks (`all`), or on at least one and then no rank may hold a result (`some`)."""

    tolerate_partial = True
    policies = (ASC, DESC)

    def kinds(self, cfg):
        return (VE,)

    def everywhere(self, cfg):
        return True

    def oracle(self, cfg, obs):
        if self.valid(cfg):
            return
        raise Bad(f"accepted: {obs[0]!r}"[:300])

    def valid(self, cfg):
        return False

    def on_raise(self, cfg, out):
        if self.valid(cfg):
            raise Bad("a valid call was rejected: " + str(out.first_exc()))
        self.check_kinds(cfg, out)

    def on_partial(self, cfg, out):
        if self.valid(cfg):
            raise Bad("a valid call was rejected: " + str(out.first_exc()))
        if self.everywhere(cfg):
            raise Bad("rejected by a part of the ranks only: " + str([k for k in out.kind]) + " " + str(out.first_exc()))
        self.check_kinds(cfg, out)

    def check_kinds(self, cfg, out):
        for r, e in enumerate(out.exc):
            if e and e[0] not in self.kinds(cfg):
                raise Bad(f"rank {r} raised {e}, should be {'/'.join(self.kinds(cfg))}")

    def real_ok(self, cfg):
        return self.everywhere(cfg)


def splits3(n, P):
    s = split(n, P)
    out = [tuple(s)]
    if P > 1:
        out.append(tuple(s[::-1]) if s[::-1] != s else tuple([s[0] + 1, s[1] - 1] + s[2:]))
        out.append(tuple([s[0] - 1] + s[1:-1] + [s[-1] + 1]))
    return list(dict.fromkeys(out))


class Operands(Reject):
    """Binary operations of two arrays: layouts must agree."""

    name = "operands"
    OPS = ("add", "sub", "mul", "iadd", "isub", "dot")

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4):
            n = 2 * P + 1
            lays = []
            for part_ in PARTS:
                for sz in splits3(n, P) if part_ == "SCATTER" else [None]:
                    for mask in (None, 0, 1):
                        lays.append((part_, sz, mask))
            for i, (a, b) in enumerate(itertools.product(lays, repeat=2)):
                for k, op in enumerate(self.OPS):
                    if tier == "quick" and a != b and (i + k) % 3:
                        continue
                    out.append(dict(P=P, n=n, a=a, b=b, op=op))
            for op in self.OPS:  # other sizes
                for part_ in PARTS:
                    out.append(dict(P=P, n=n, a=(part_, None, None), b=(part_, None, None), op=op, n2=n + P))
                    out.append(dict(P=P, n=n, a=(part_, None, None), b=(part_, None, None), op=op, n2=2 * n))
        return out

    def make(self, env, n, lay, salt):
        part_, sz, mask = lay
        masks = {None: None, 0: [0] * env.size, 1: [r % 2 for r in range(env.size)]}
        return dist(env, data((n,), F8, salt), sz, 0, part_, **(dict(mask=masks[mask]) if mask is not None else {}))

    def program(self, env, cfg):
        a = self.make(env, cfg["n"], cfg["a"], 1)
        b = self.make(env, cfg.get("n2", cfg["n"]), cfg["b"], 2)
        op = cfg["op"]
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "dot":
            return float(a.dot(b))
        elif op == "iadd":
            a += b
            r = a
        else:
            a -= b
            r = a
        return np.array(r.local_array)

    def _mask(self, cfg, k):
        m = cfg[k][2]
        return None if m is None else [0] * cfg["P"] if m == 0 else [r % 2 for r in range(cfg["P"])]

    def _size(self, cfg, k):
        n = cfg["n"] if k == "a" else cfg.get("n2", cfg["n"])
        part_, sz, _ = cfg[k]
        return [n] * cfg["P"] if part_ != "SCATTER" else list(sz or split(n, cfg["P"]))

    def valid(self, cfg):
        return cfg["a"][0] == cfg["b"][0] and self._mask(cfg, "a") == self._mask(cfg, "b") and self._size(cfg, "a") == self._size(cfg, "b")

    def everywhere(self, cfg):
        # local shapes are compared locally: ranks whose pieces happen to agree cannot know
        return cfg["a"][0] != cfg["b"][0] or all(x != y for x, y in zip(self._size(cfg, "a"), self._size(cfg, "b"))) or (
            self._mask(cfg, "a") != self._mask(cfg, "b"))


class LocalShapes(Reject):
    """local_shapes that do not tile the global array."""

    name = "local shapes"

    def configs(self, tier):
        out = []
        for P in (1, 2, 3, 4):
            for shape, axis in (((2 * P + 1,), 0), ((P + 2, 3), 0), ((3, P + 2), 1), ((2, P + 1, 2), 1)):
                base = shapes_for(shape, split(shape[axis], P), axis)
                out.append(dict(P=P, shape=shape, axis=axis, ls=tuple(base), part="SCATTER", bad=None))
                for r in range(P):
                    for d in range(len(shape)):
                        for delta in (-1, 1, 2):
                            ls = [list(s) for s in base]
                            ls[r][d] += delta
                            if ls[r][d] < 0:
                                continue
                            out.append(dict(P=P, shape=shape, axis=axis, ls=tuple(tuple(s) for s in ls), part="SCATTER", bad="axis" if d == axis else "other"))
                out.append(dict(P=P, shape=shape, axis=axis, ls=tuple(base) + ((1,) * len(shape),), part="SCATTER", bad="count"))
                if P > 1:
                    out.append(dict(P=P, shape=shape, axis=axis, ls=tuple(base[:-1]), part="SCATTER", bad="count"))
                    for p in PARTS[1:]:
                        out.append(dict(P=P, shape=shape, axis=axis, ls=tuple(base), part=p, bad="axis"))
                for p in PARTS[1:]:
                    out.append(dict(P=P, shape=shape, axis=axis, ls=(shape,) * P, part=p, bad=None))
        # every list of small local shapes, also those of the right total size, of permuted extents, of other dimensions
        for P, shape, top in ((1, (2, 4), 8), (1, (2, 3, 2), 4), (2, (4, 2), 4), (2, (2, 3), 4), (3, (3, 2), 2)):
            each = list(itertools.product(range(top + 1), *[range(1, top + 1)] * (len(shape) - 1))) + [(int(np.prod(shape)) // P,), (shape[0], shape[1], 1)]
            for axis in range(len(shape)):
                for ls in itertools.product(each, repeat=P):
                    if P > 1 and ls.count(ls[0]) < P and len(ls) > 2 and hash(ls) % 5 and tier == "quick":
                        continue
                    if not (all(len(q) > axis for q in ls)):
                        continue
                    other = [len(q) != len(shape) or any(q[d] != shape[d] for d in range(len(shape)) if d != axis) for q in ls]
                    wrong = sum(q[axis] for q in ls) != shape[axis]
                    out.append(dict(P=P, shape=shape, axis=axis, ls=ls, part="SCATTER", bad="axis" if wrong or all(other) else "other" if any(other) else None))
        # the same for the whole array on every rank
        for P in (1, 2, 3):
            for p in PARTS[1:]:
                for shape in ((2, 3), (4,), (1, 2, 2)):
                    for ls in itertools.product(range(5), repeat=len(shape)):
                        out.append(dict(P=P, shape=shape, axis=0, ls=(ls,) * P, part=p, bad=None if ls == shape else "axis"))
        return out

    def program(self, env, cfg):
        how = dict(base_comm=env.world, partition=part(env, cfg["part"]), axis=cfg["axis"], local_shapes=list(cfg["ls"]))
        if sum(map(sum, cfg["ls"])) % 2:
            a = env.DistributedArray(global_shape=cfg["shape"], **how)
        else:
            a = env.DistributedArray.to_dist(data(cfg["shape"]), **how)
        return a.local_shape

    def valid(self, cfg):
        return cfg["bad"] is None

    def everywhere(self, cfg):
        return cfg["bad"] != "other"


class Calls(Reject):
    """One malformed call each."""

    name = "malformed calls"
    # name -> (code, exceptions, everywhere)
    CODE = {
        "axis too large": ("env.DistributedArray((4, 4), axis=2)", (IE,), 1),
        "axis too large, 1-D": ("env.DistributedArray(7, axis=1)", (IE,), 1),
        "no such partition": ("env.DistributedArray(5, partition='SCATTER')", (VE, TE), 1),
        "fro norm": ("sc(N).norm('fro')", (VE,), 1),
        "nuc norm": ("sc(N).norm('nuc')", (VE,), 1),
        "stacked fro norm": ("env.StackedDistributedArray([sc(N), sc(N)]).norm('fro')", (VE,), 1),
        "stacks of different length": ("env.StackedDistributedArray([sc(N), sc(N)]) + env.StackedDistributedArray([sc(N)])", (VE,), 1),
        "stacks of different length -": ("env.StackedDistributedArray([sc(N)]) - env.StackedDistributedArray([sc(N), sc(N)])", (VE,), 1),
        "stacks of different length *": ("env.StackedDistributedArray([sc(N)]) * env.StackedDistributedArray([sc(N), sc(N)])", (VE,), 1),
        "stacks of different length dot": ("env.StackedDistributedArray([sc(N)]).dot(env.StackedDistributedArray([sc(N), sc(N)]))", (VE,), 1),
        "stacks of different shapes": ("env.StackedDistributedArray([sc(N), sc(N)]) + env.StackedDistributedArray([sc(N), sc(N + 1)])", (VE,), 1),
        "stacks of different shapes dot": ("env.StackedDistributedArray([sc(N), sc(N)]).dot(env.StackedDistributedArray([sc(N + 1), sc(N)]))", (VE,), 1),
        "stacks of different shapes +=": ("env.StackedDistributedArray([sc(N), sc(N)]).iadd(env.StackedDistributedArray([sc(N), sc(2 * N)]))", (VE,), 1),
        "model too long": ("mk('A').matvec(sc(N + 1))", (VE,), 1),
        "model too short": ("mk('A').matvec(sc(N - 1))", (VE,), 1),
        "model too long, wrapped": ("mk('W').matvec(br(N + 1))", (VE,), 1),
        "model too long, derivative": ("mk('D').matvec(sc(N + P))", (VE,), 1),
        "data too long": ("mk('A').rmatvec(sc(N + 1))", (VE,), 1),
        "data like model": ("mk('R').rmatvec(sc(N))", (VE,), 1),
        "data like model, adjoint": ("mk('R').H.matvec(sc(N))", (VE,), 1),
        "data too short, vstack": ("mk('V').rmatvec(sc(mk('V').shape[0] - 1))", (VE,), 1),
        "model too long, sum": ("(mk('A') + mk('B')).matvec(sc(N + 1))", (VE,), 1),
        "model too long, power 0": ("(mk('A') ** 0).matvec(sc(N + 1))", (VE,), 1),
        "2-D model": ("mk('A') @ env.DistributedArray((N, 1))", (VE,), 1),
        "2-D model *": ("mk('A') * env.DistributedArray((N, 1))", (VE,), 1),
        "scalar @": ("mk('A') @ 2", (VE,), 1),
        "@ scalar": ("2 @ mk('A')", (VE, TE), 1),
        "product of sizes that do not fit": ("mk('R') * mk('R')", (VE,), 1),
        "product of sizes that do not fit 2": ("mk('A') * mk('R').H.H", (VE,), 1),
        "sum of shapes that differ": ("mk('A') + mk('R')", (VE,), 1),
        "difference of shapes that differ": ("mk('R') - mk('A')", (VE,), 1),
        "sum with its transpose": ("mk('R') + mk('R').T", (VE,), 1),
        "sum with a scalar": ("mk('A') + 2", (VE,), 1),
        "sum with an array": ("mk('A') + sc(N)", (VE, TE), 1),
        "power of a rectangle": ("mk('R') ** 2", (VE,), 1),
        "negative power": ("mk('A') ** -1", (VE,), 1),
        "fractional power": ("mk('A') ** 0.5", (VE,), 1),
        "stacked negative power": ("env.MPIStackedBlockDiag([mk('A')]) ** -1", (VE,), 1),
        "stacked fractional power": ("env.MPIStackedBlockDiag([mk('A')]) ** 1.5", (VE,), 1),
        "stacked power of a rectangle": ("env.MPIStackedVStack([mk('A'), mk('B')]) ** 2", (VE,), 1),
        "stacked sum of kinds": ("env.MPIStackedVStack([mk('A')]) + env.MPIStackedBlockDiag([mk('A')])", (VE,), 1),
        "stacked sum of shapes": ("env.MPIStackedVStack([mk('A'), mk('B')]) + env.MPIStackedVStack([mk('A')])", (VE,), 1),
        "stacked product of stacks": ("env.MPIStackedVStack([mk('A')]) * env.MPIStackedVStack([mk('A')])", (VE,), 1),
        "stacked product of sizes": ("env.MPIStackedBlockDiag([mk('A'), mk('B')]) * env.MPIStackedBlockDiag([mk('A')])", (VE,), 1),
        "stacked product, other number of operators": ("env.MPIStackedBlockDiag([mk('A'), mk('B')]) * env.MPIStackedBlockDiag([env.MPIFirstDerivative(2 * N)])", (VE,), 1),
        "stacked 2-D model": ("env.MPIStackedBlockDiag([mk('A')]) @ env.StackedDistributedArray([env.DistributedArray((N, 1))])", (VE,), 1),
        "stacked 2-D model *": ("env.MPIStackedBlockDiag([mk('A')]) * env.DistributedArray((N, 1))", (VE,), 1),
        "stacked 1-D and 2-D model": ("env.MPIStackedBlockDiag([mk('A'), mk('B')]) @ env.StackedDistributedArray([sc(N), env.DistributedArray((N, 1))])", (VE,), 1),
        "stacked scalar @": ("env.MPIStackedVStack([mk('A')]) @ 3", (VE,), 1),
        "stacked model too long": ("env.MPIStackedBlockDiag([mk('A'), mk('B')]).matvec(env.StackedDistributedArray([sc(N), sc(N + 1)]))", (VE,), 1),
        "stacked model too short": ("env.MPIStackedBlockDiag([mk('A'), mk('B')]).matvec(env.StackedDistributedArray([sc(N)]))", (VE,), 1),
        "stacked data too long": ("env.MPIStackedVStack([mk('A'), mk('B')]).rmatvec(env.StackedDistributedArray([sc(N), sc(N), sc(N)]))", (VE,), 1),
        "stacked vstack model too long": ("env.MPIStackedVStack([mk('A'), mk('B')]).matvec(sc(N + 1))", (VE,), 1),
        "stacked vstack of other columns": ("env.MPIStackedVStack([mk('A'), env.MPIFirstDerivative(N + 1)])", (VE,), 1),
        "vstack of other columns": ("env.MPIVStack([pylops.Identity(3 + (env.rank == 0))])", (VE,), 0),
        "vstack of other columns on the last rank": ("env.MPIVStack([pylops.Identity(3 + (env.rank == P - 1))])", (VE,), 0),
        "vstack of other columns on one rank": ("env.MPIVStack([pylops.Identity(3), pylops.Identity(4)])", (VE,), 1),
        "hstack of other rows": ("env.MPIHStack([pylops.Identity(3 + (env.rank == 0))])", (VE,), 0),
        "hstack of other rows on one rank": ("env.MPIHStack([pylops.Identity(3), pylops.Identity(4)])", (VE,), 1),
        "vstack of a scattered model": ("mk('V').matvec(sc(N))", (VE,), 1),
        "vstack of broadcast data": ("mk('V').rmatvec(br(mk('V').shape[0]))", (VE,), 1),
        "hstack of a broadcast model": ("mk('H').matvec(br(mk('H').shape[1]))", (VE,), 1),
        "hstack of scattered data": ("mk('H').rmatvec(sc(N))", (VE,), 1),
        "block diagonal of a broadcast model": ("mk('A').matvec(br(N))", (VE,), 1),
        "block diagonal of unsafe data": ("mk('A').rmatvec(ub(N))", (VE,), 1),
        "derivative of an unsafe model": ("mk('D').matvec(ub(N))", (VE,), 1),
        "first derivative, kind": ("env.MPIFirstDerivative(N, kind='upward')", (NI,), 1),
                "first derivative, order 0": ("env.MPIFirstDerivative(N, order=0)", (NI,), 1),
        "first derivative, order 1": ("env.MPIFirstDerivative(N, order=1)", (NI,), 1),
        "first derivative, order 2": ("env.MPIFirstDerivative(N, order=2)", (NI,), 1),
        "first derivative, order 4": ("env.MPIFirstDerivative(N, order=4)", (NI,), 1),
        "first derivative, order 6": ("env.MPIFirstDerivative(N, order=6)", (NI,), 1),
        "first derivative, order 7": ("env.MPIFirstDerivative(N, order=7)", (NI,), 1),
        "first derivative, order 8": ("env.MPIFirstDerivative(N, order=8)", (NI,), 1),
        "first derivative, order 9": ("env.MPIFirstDerivative(N, order=9)", (NI,), 1),
        "first derivative, order 11": ("env.MPIFirstDerivative(N, order=11)", (NI,), 1),
        "first derivative, order 13": ("env.MPIFirstDerivative(N, order=13)", (NI,), 1),
        "first derivative, order 15": ("env.MPIFirstDerivative(N, order=15)", (NI,), 1),
        "first derivative, order -3": ("env.MPIFirstDerivative(N, order=-3)", (NI,), 1),
        "first derivative, order -5": ("env.MPIFirstDerivative(N, order=-5)", (NI,), 1),
        "first derivative, order 7 with edges": ("env.MPIFirstDerivative((N, 3), order=7, edge=True)", (NI,), 1),
        "first derivative, order 3.5": ("env.MPIFirstDerivative(N, order=3.5)", (NI,), 1),
        "first derivative, no kind": ("env.MPIFirstDerivative(N, kind='')", (NI,), 1),
        "first derivative, kind in capitals": ("env.MPIFirstDerivative(N, kind='Forward')", (NI,), 1),
        "second derivative, part of a kind": ("env.MPISecondDerivative(N, kind='back')", (NI,), 1),
        "laplacian, kind": ("env.MPILaplacian((N, 4), axes=(0, 1), kind='upward')", (NI,), 1),
        "gradient, kind": ("env.MPIGradient((N, 4), kind='upward')", (NI,), 1),
        "laplacian, more weights": ("env.MPILaplacian((N, 4, 4), axes=(0, 1), weights=(1, 1, 1), sampling=(1, 1))", (VE,), 1),
        "laplacian, default weights of three axes": ("env.MPILaplacian((N, 4, 4), axes=(0, 1, 2))", (VE,), 1),
        "laplacian, default weights of one axis": ("env.MPILaplacian((N, 4), axes=(0,))", (VE,), 1),
        "laplacian, negative axis": ("env.MPILaplacian((N, 4), axes=(0, -3), weights=(1, 1), sampling=(1, 1))", (VE, IE, "AxisError"), 1),
        "mdc, nt of two": ("env.MPIMDC(data((2, 2, 3), C16), nt=2, nv=1, nfreq=2 * P, twosided=True)", (VE,), 1),
        "mdc, long even nt": ("env.MPIMDC(data((2, 2, 3), C16), nt=8 * P + 96, nv=1, nfreq=2 * P, twosided=True)", (VE,), 1),
        "fredholm, data too long": ("fr().rmatvec(br(fr().shape[0] + 1))", (VE,), 1),
        "fredholm of a scattered model of double size": ("fr().matvec(sc(2 * fr().shape[1]))", (VE,), 1),
        "stacked inf norm of a name": ("env.StackedDistributedArray([sc(N), sc(N)]).norm('nuc')", (VE,), 1),
        "product with a larger operator": ("mk('A') * make(env, 'A', N + P, P, F8)", (VE,), 1),
        "sum with a larger operator": ("mk('A') + make(env, 'A', N + P, P, F8)", (VE,), 1),
        "power of a very wide one": ("make(env, 'R', 40 * P, P, F8) ** 2", (VE,), 1),
        "second derivative, kind": ("env.MPISecondDerivative(N, kind='upward')", (NI,), 1),
        "laplacian, weights": ("env.MPILaplacian((N, 4), axes=(0, 1), weights=(1,), sampling=(1, 1))", (VE,), 1),
        "laplacian, sampling": ("env.MPILaplacian((N, 4), axes=(0, 1), weights=(1, 1), sampling=(1, 1, 1))", (VE,), 1),
        "laplacian, axes": ("env.MPILaplacian((N, 4), axes=(0, 2), weights=(1, 1), sampling=(1, 1))", (VE, IE, "AxisError"), 1),
        "gradient, model": ("env.MPIGradient((N, 2)).matvec(sc(N))", (VE,), 1),
        "fredholm of a scattered model": ("fr().matvec(sc(fr().shape[1]))", (VE,), 1),
        "fredholm of scattered data": ("fr().rmatvec(sc(fr().shape[0]))", (VE,), 1),
        "fredholm, model too short": ("fr().matvec(br(fr().shape[1] - 1))", (VE,), 1),
        "mdc, even twosided nt": ("env.MPIMDC(data((2, 2, 3), C16), nt=6, nv=1, nfreq=2, twosided=True)", (VE,), 1),
        "dottest, rows": ("env.dottest(mk('R'), sc(N), sc(N + P), nr=N)", (AE,), 1),
        "dottest, columns": ("env.dottest(mk('R'), sc(N), sc(N + P), nc=N + 1)", (AE,), 1),
        "cg without niter": ("noniter('CG')", (VE,), 1),
        "cgls without niter": ("noniter('CGLS')", (VE,), 1),
        "cgls, start too long": ("env.CGLS(mk('R')).setup(sc(N + P), sc(N + 1), niter=2)", (VE,), 1),
        "cg, data of another size": ("env.CG(mk('A')).setup(sc(N + P), sc(N), niter=2)", (VE,), 1),
        "too many ghost cells in front": ("sc(N).add_ghost_cells(cells_front=N)", (VE,), 0),
        "too many ghost cells behind": ("sc(N).add_ghost_cells(cells_back=N)", (VE,), 0),
    }
    ONLY = {"too many ghost cells in front": 2, "too many ghost cells behind": 2, "vstack of other columns": 2, "vstack of other columns on the last rank": 2,
            "hstack of other rows": 2, "data like model": 1}

    def configs(self, tier):
        return [dict(P=P, call=c) for P in (1, 2, 3, 4) for c in self.CODE if P >= self.ONLY.get(c, 1)]

    def kinds(self, cfg):
        return self.CODE[cfg["call"]][1]

    def everywhere(self, cfg):
        return bool(self.CODE[cfg["call"]][2])

    def program(self, env, cfg):
        P = cfg["P"]
        N = 3 * P + 1

        def fr():
            return env.MPIFredholm1(data((2, 3, 2), F8, env.rank), nz=2)

        def noniter(c):
            op = mk("A")
            s = getattr(env, c)(op)
            x = s.setup(sc(N), sc(N) * 0)
            return s.run(x)

        def mk(name):
            return make(env, name, N, P, F8)

        def sc(n):
            return dist(env, data((int(n),), F8, 3))

        def br(n):
            return dist(env, data((int(n),), F8, 4), partition="BROADCAST")

        def ub(n):
            return dist(env, data((int(n),), F8, 4), partition="UNSAFE_BROADCAST")

        return str(type(eval(self.CODE[cfg["call"]][0], dict(env=env, N=N, P=P, sc=sc, br=br, ub=ub, mk=mk, fr=fr, noniter=noniter, make=make, F8=F8, pylops=pylops, data=data, C16=C16))))


FAMILIES = [Operands(), LocalShapes(), Calls()]
