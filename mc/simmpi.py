"""Deterministic, fully controlled MPI runtime for model checking.

N ranks run in one OS process, one thread each, but only one thread is ever runnable: the ranks hand a baton to each
other at MPI calls.  Every MPI call is a *visible operation*: it is posted, and then executed when the scheduler picks
it.  The ranks share nothing but the simulated network (each has its own copy of pylops_mpi and of the MPI module, see
universe.py), so the interleaving of visible operations, the buffering of sends, the early completion of collectives and
the matching of wildcard receives are the only sources of nondeterminism, and a `Policy` decides every one of them.

What is modelled (MPI-3.1 semantics): non-overtaking point-to-point matching by (communicator, source, tag), standard
sends that may or may not be buffered, non-blocking operations, collectives that have to be called in the same order by
all members of a communicator and that synchronise or not, communicator creation, truncation and type errors.
"""

import pickle
import sys
import threading
import types

import numpy as np

ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED = -1, -1, -2, -32766
NEED_ALL = {"barrier", "allgather", "allreduce", "alltoall", "split", "dup", "reduce_scatter", "free", "create"}


class SimAbort(BaseException):
    """Unwinds a rank's stack when its execution is abandoned."""


class MPIException(RuntimeError):
    """What MPI reports as an error to the caller (mpi4py: MPI.Exception)."""


class Unsupported(BaseException):
    """The code under test used a part of MPI which the simulator does not have: no verdict."""


# ---------------------------------------------------------------------------------------------------------------- world
class Policy:
    """Decides everything.  choose(world, options): options = list of (rank, choice) pairs, canonical order."""

    eager = True  # may sends complete before they are received
    early = True  # may collectives complete as early as MPI permits
    order = 1  # reduction order
    explore = False  # stop at every visible operation (else only where an operation is not enabled)
    descending = False

    def __init__(self, eager=True, early=True, descending=False, order=1):
        self.eager, self.early, self.descending, self.order = eager, early, descending, order

    def choose(self, world, options):
        # deterministic operations first; wildcard receives only when nothing else can move (largest sender set)
        det = [o for o in options if not o[1][0].startswith("any")] or options
        return max(det, key=lambda o: o[0]) if self.descending else det[0]


class Rank:
    __slots__ = ("rank", "lock", "state", "op", "choice", "result", "exc", "hist", "nops", "modules", "program", "tb",
                 "calls")


class World:
    epochs = 0

    def __init__(self, size, policy, modules, horizon=200000):
        World.epochs += 1
        self.epoch = World.epochs  # communicators kept from an earlier execution must not collide with new ones
        self.size, self.policy, self.horizon = size, policy, horizon
        self.ranks = []
        for r in range(size):
            k = Rank()
            k.rank, k.lock, k.state, k.op, k.choice = r, threading.Lock(), "new", None, None
            k.result = k.exc = k.tb = None
            k.hist, k.nops, k.modules, k.program = 0, 0, modules[r], None
            k.calls = []
            k.lock.acquire()
            self.ranks.append(k)
        self.mail = {}  # (ctx, dst) -> [Msg]
        self.posted = {}  # (ctx, dst) -> [Request], receive requests in post order, unmatched
        self.colls = {}
        self.collseq = {}
        self.requests = []
        self.current = None
        self.aborting = False
        self.done = threading.Event()
        self.fatal = None  # text: an MPI usage error, the execution ends there
        self.unsupported = None
        self.ending = None
        self.steps = 0  # visible operations executed
        self.points = 0  # scheduling decisions with >= 1 option
        self.branch = 0  # ... with >= 2 options
        self.pruned = False
        self.unsafe = None
        self.rma = []
        self.switch_in = None

    # ---- called by rank threads
    def visible(self, op):
        """Executes op for the running rank; returns its result."""
        k = self.current
        if self.aborting:
            raise SimAbort()
        op.rank = k.rank
        k.op = op
        k.nops += 1
        if len(k.calls) < 400:
            k.calls.append(op.label())
        if k.nops > self.horizon:
            self.fatal = f"rank {k.rank}: more than {self.horizon} MPI operations (horizon)"
            self.stop()
            raise SimAbort()
        try:
            op.post(self)
        except SimAbort:
            raise
        if self.fatal:
            self.stop()
            raise SimAbort()
        if not self.policy.explore:
            ch = op.choices(self)
            if ch and len(ch) == 1 and not ch[0][0].startswith(("any", "buffer", "yield")):
                k.choice = ch[0]
            elif ch and ch[0][0] == "buffer" and self.policy.eager:
                k.choice = ch[0]
            else:
                self.yield_baton(k)
        else:
            self.yield_baton(k)
        ch, k.choice, k.op = k.choice, None, None
        self.steps += 1
        res = op.execute(self, ch)
        if self.fatal:
            self.stop()
            raise SimAbort()
        return res

    def options(self):
        opts = []
        for k in self.ranks:
            if k.state == "new":
                opts.append((k.rank, ("start",)))
            elif k.state == "blocked":
                for c in k.op.choices(self):
                    opts.append((k.rank, c))
        return opts

    def yield_baton(self, k):
        k.state = "blocked"
        nxt = self.pick()
        if nxt is k:
            k.state = "running"
            return
        self.handover(nxt)
        k.lock.acquire()
        if self.aborting:
            raise SimAbort()
        k.state = "running"

    def pick(self):
        """Chooses the next rank; None if the execution is over."""
        if self.fatal or self.unsupported:
            return None
        opts = self.options()
        usable = opts
        if not self.policy.eager:
            usable = [o for o in opts if o[1][0] != "buffer"]
        if not usable:
            if opts:
                self.unsafe = self.blocked_text()
            return None
        solid = [o for o in usable if o[1][0] not in ("buffer", "yield")]
        if self.policy.explore and not any(o[1][0] != "buffer" for o in usable):
            self.unsafe = self.blocked_text()
        if solid and not self.policy.explore:
            usable = solid
        self.points += 1
        if len(usable) > 1:
            self.branch += 1
        got = self.policy.choose(self, usable)
        if got is None:
            self.pruned = True
            return None
        rank, choice = got
        k = self.ranks[rank]
        k.choice = choice
        return k

    def handover(self, nxt):
        if nxt is None:
            self.stop()
            return
        self.activate(nxt)
        nxt.lock.release()

    def activate(self, k):
        self.current = k
        if k.modules is not None:
            sys.modules.update(k.modules)

    def stop(self):
        """Ends the execution: called with the baton.  The controller then unwinds the other ranks."""
        self.aborting = True
        self.done.set()

    def finish(self, k):
        """k's program returned or raised; hand the baton on."""
        if self.aborting:
            self.done.set()
            return
        if all(x.state in ("done", "exc") for x in self.ranks):
            self.done.set()
            return
        nxt = self.pick()
        self.handover(nxt)

    def key(self):
        return tuple((k.state, k.nops, k.hist, k.op.label() if k.op is not None else None) for k in self.ranks)

    def blocked_text(self):
        return "; ".join(
            f"rank {k.rank} " + (f"blocked in {k.op.label()}" if k.state == "blocked" else k.state) for k in self.ranks
        )


# ------------------------------------------------------------------------------------------------------------ operations
def _freeze(x):
    if isinstance(x, np.ndarray):
        return hash((x.shape, str(x.dtype), x.tobytes()))
    try:
        return hash(pickle.dumps(x, 5))
    except Exception:  # noqa: BLE001
        return hash(repr(type(x)))


class Op:
    rank = None
    name = "op"

    def label(self):
        return self.name

    def post(self, w):
        pass

    def choices(self, w):
        return [("go",)]

    def execute(self, w, choice):
        return None


class Msg:
    __slots__ = ("src", "tag", "data", "kind", "received", "sig")

    def __init__(self, src, tag, data, kind, sig):
        self.src, self.tag, self.data, self.kind, self.received, self.sig = src, tag, data, kind, False, sig


def _matches(req, msg):
    return req.src in (ANY_SOURCE, msg.src) and req.tag in (ANY_TAG, msg.tag)


class RecvReq:
    def __init__(self, comm, src, tag, unpack):
        self.comm, self.src, self.tag, self.unpack, self.msg, self.done, self.value = comm, src, tag, unpack, None, False, None
        self.status = None

    def post(self, w):
        key = (self.comm.ctx, self.comm.Get_rank())
        if self.src == PROC_NULL:
            self.done = True
            return
        if self.src != ANY_SOURCE and not any(_overlap(r, self) for r in w.posted.get(key, [])):
            for m in w.mail.get(key, []):
                if _matches(self, m):
                    w.mail[key].remove(m)
                    self.claim(m)
                    return
        w.posted.setdefault(key, []).append(self)

    def claim(self, m):
        self.msg = m
        m.received = True

    def candidates(self, w):
        """Messages this posted request may be matched with now (first of each source)."""
        key = (self.comm.ctx, self.comm.Get_rank())
        out, srcs = [], set()
        before = []
        for r in w.posted.get(key, []):
            if r is self:
                break
            before.append(r)
        for m in w.mail.get(key, []):
            if _matches(self, m) and m.src not in srcs and not any(_matches(r, m) for r in before):
                srcs.add(m.src)
                out.append(m)
        return out

    def ready(self, w):
        return self.done or self.msg is not None

    def choices(self, w):
        if self.ready(w):
            return [("go",)]
        return [("any%d" % m.src,) for m in self.candidates(w)]

    def complete(self, w, choice):
        if self.done:
            return self.value
        if self.msg is None:
            src = int(choice[0][3:])
            m = next(m for m in self.candidates(w) if m.src == src)
            key = (self.comm.ctx, self.comm.Get_rank())
            w.mail[key].remove(m)
            w.posted[key].remove(self)
            self.claim(m)
        self.done = True
        self.value = self.unpack(self.msg)
        if self.status is not None:
            self.status.source, self.status.tag = self.msg.src, self.msg.tag
        return self.value

    def label(self):
        s = "ANY_SOURCE" if self.src == ANY_SOURCE else self.src
        return f"recv(source={s}, tag={self.tag})"


def _overlap(a, b):
    return (a.src == ANY_SOURCE or b.src == ANY_SOURCE or a.src == b.src) and (
        a.tag == ANY_TAG or b.tag == ANY_TAG or a.tag == b.tag)


class SendReq:
    def __init__(self, comm, dst, tag, data, kind, sig, sync=False, buffered=False):
        self.comm, self.dst, self.tag = comm, dst, tag
        self.msg = Msg(comm.Get_rank(), tag, data, kind, sig)
        self.done, self.value, self.sync, self.buffered = dst == PROC_NULL, None, sync, buffered
        self.status = None

    def post(self, w):
        if self.dst == PROC_NULL:
            return
        if not 0 <= self.dst < self.comm.Get_size():
            raise MPIException("MPI_ERR_RANK: invalid rank")
        key = (self.comm.ctx, self.dst)
        for r in w.posted.get(key, []):
            if _matches(r, self.msg):
                if r.src == ANY_SOURCE or any(m.src == self.msg.src and _matches(r, m) for m in w.mail.get(key, [])):
                    break
                w.posted[key].remove(r)
                r.claim(self.msg)
                return
        w.mail.setdefault(key, []).append(self.msg)

    def ready(self, w):
        return self.done or self.msg.received or self.buffered

    def choices(self, w):
        if self.ready(w):
            return [("go",)]
        return [] if self.sync else [("buffer",)]

    def complete(self, w, choice):
        self.done = True
        return None

    def label(self):
        return f"send(dest={self.dst}, tag={self.tag})"


class PostOp(Op):
    """isend / irecv: only posts the request."""

    def __init__(self, req):
        self.req = req
        self.name = "i" + req.label()

    def post(self, w):
        self.req.post(w)
        w.requests.append(self.req)

    def execute(self, w, choice):
        return None


class WaitOp(Op):
    """Blocking send/recv (posts first), or wait on a request."""

    def __init__(self, req, post):
        self.req, self.dopost = req, post
        self.name = req.label() if post else "wait:" + req.label()

    def post(self, w):
        if self.dopost:
            self.req.post(w)

    def choices(self, w):
        return self.req.choices(w)

    def execute(self, w, choice):
        v = self.req.complete(w, choice)
        k = w.ranks[self.rank]
        k.hist = hash((k.hist, self.name, _freeze(v)))
        return v


class TestOp(Op):
    """test/iprobe: answers at once, but is scheduled last so that polling loops make progress."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def choices(self, w):
        v = self.fn(w, False)
        return [("go",)] if v[0] else [("yield",)]

    def execute(self, w, choice):
        v = self.fn(w, True)
        k = w.ranks[self.rank]
        k.hist = hash((k.hist, self.name, bool(v[0])))
        return v


class ProbeOp(Op):
    def __init__(self, comm, src, tag):
        self.req = RecvReq(comm, src, tag, None)
        self.name = f"probe(source={src}, tag={tag})"

    def choices(self, w):
        c = self.req.candidates(w)
        if self.req.src != ANY_SOURCE:
            return [("go",)] if c else []
        return [("any%d" % m.src,) for m in c]

    def execute(self, w, choice):
        c = self.req.candidates(w)
        m = c[0] if choice[0] == "go" else next(m for m in c if m.src == int(choice[0][3:]))
        k = w.ranks[self.rank]
        k.hist = hash((k.hist, self.name, m.src, m.tag))
        return m


class Coll:
    __slots__ = ("name", "sig", "members", "contrib", "cache", "first", "left")


class CollOp(Op):
    """One member's call of a collective.  compute(contribs: dict member->data, me) -> result, run at completion."""

    def __init__(self, comm, name, sig, data, compute, root=None):
        self.comm, self.name, self.sig, self.data, self.compute, self.root = comm, name, sig, data, compute, root

    def label(self):
        r = "" if self.root is None else f", root={self.root}"
        return f"{self.name}(comm={self.comm.ctxname()}{r})"

    def post(self, w):
        me = self.comm.Get_rank()
        skey = (self.comm.ctx, me)
        seq = w.collseq.get(skey, 0)
        w.collseq[skey] = seq + 1
        key = (self.comm.ctx, seq)
        c = w.colls.get(key)
        sig = (self.name, self.root, self.sig)
        if c is None:
            c = Coll()
            c.name, c.sig, c.members, c.contrib, c.cache, c.first, c.left = self.name, sig, self.comm.Get_size(), {}, {}, me, 0
            w.colls[key] = c
        elif c.sig != sig and not _compatible(c.sig, sig):
            w.fatal = (f"collective mismatch on {self.comm.ctxname()}: rank {c.first} called {_sigtext(c.sig)}, "
                       f"rank {me} called {_sigtext(sig)}")
        c.contrib[me] = self.data
        self.c, self.key = c, key

    def choices(self, w):
        c, me = self.c, self.comm.Get_rank()
        if len(c.contrib) == c.members:
            return [("go",)]
        if self.name in NEED_ALL or not w.policy.early:
            return []
        if self.name in ("bcast", "scatter"):
            return [("go",)] if self.root in c.contrib else []
        if self.name in ("gather", "reduce"):
            return [("go",)] if me != self.root else []
        if self.name in ("scan", "exscan"):
            return [("go",)] if all(i in c.contrib for i in range(me + 1)) else []
        return []

    def execute(self, w, choice):
        c, me = self.c, self.comm.Get_rank()
        v = self.compute(c.contrib, me, w)
        c.left += 1
        if c.left == c.members:
            del w.colls[self.key]
        k = w.ranks[self.rank]
        k.hist = hash((k.hist, self.label(), _freeze(v) if not isinstance(v, Comm) else v.ctxname()))
        return v


def _compatible(a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return False
    if a[2] is None or b[2] is None:
        return a[2] == b[2]
    return False


def _sigtext(s):
    return f"{s[0]}" + (f"(root={s[1]})" if s[1] is not None else "") + (f" {s[2]}" if s[2] else "")


# ---------------------------------------------------------------------------------------------------------- reductions
class ReduceOp:
    def __init__(self, name, obj, buf):
        self.name, self.obj, self.buf = name, obj, buf

    def __call__(self, x, y):
        return self.obj(x, y)

    def __repr__(self):
        return f"MPI.{self.name}"

    def Get_name(self):
        return "MPI_" + self.name

    def Is_commutative(self):
        return True

    def Free(self):
        pass

    @classmethod
    def Create(cls, function, commute=False):
        raise Unsupported("MPI.Op.Create")


def _max(x, y):
    return y if y > x else x


def _min(x, y):
    return y if y < x else x


OPS = {
    "SUM": ReduceOp("SUM", lambda x, y: x + y, np.add),
    "PROD": ReduceOp("PROD", lambda x, y: x * y, np.multiply),
    "MAX": ReduceOp("MAX", _max, np.maximum),
    "MIN": ReduceOp("MIN", _min, np.minimum),
    "LAND": ReduceOp("LAND", lambda x, y: bool(x) & bool(y), np.logical_and),
    "LOR": ReduceOp("LOR", lambda x, y: bool(x) | bool(y), np.logical_or),
    "LXOR": ReduceOp("LXOR", lambda x, y: bool(x) ^ bool(y), np.logical_xor),
    "BAND": ReduceOp("BAND", lambda x, y: x & y, np.bitwise_and),
    "BOR": ReduceOp("BOR", lambda x, y: x | y, np.bitwise_or),
    "BXOR": ReduceOp("BXOR", lambda x, y: x ^ y, np.bitwise_xor),
    "MAXLOC": ReduceOp("MAXLOC", lambda x, y: x if x[0] > y[0] else y if y[0] > x[0] else (x[0], min(x[1], y[1])), None),
    "MINLOC": ReduceOp("MINLOC", lambda x, y: x if x[0] < y[0] else y if y[0] < x[0] else (x[0], min(x[1], y[1])), None),
}


# ------------------------------------------------------------------------------------------------------------- buffers
class Datatype:
    def __init__(self, name, dt):
        self.name, self.dt = name, None if dt is None else np.dtype(dt)

    def __repr__(self):
        return f"MPI.{self.name}"

    def Get_size(self):
        return self.dt.itemsize

    @property
    def size(self):
        return self.dt.itemsize

    def Commit(self):
        return self

    def Free(self):
        pass

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("Datatype." + a)


DATATYPES = {n: Datatype(n, d) for n, d in dict(
    DOUBLE="f8", FLOAT="f4", INT="i4", LONG="i8", LONG_LONG="i8", INT64_T="i8", INT32_T="i4", INT16_T="i2", INT8_T="i1",
    UINT64_T="u8", UINT32_T="u4", UNSIGNED_LONG="u8", UNSIGNED="u4", BYTE="u1", CHAR="i1", BOOL="?", C_BOOL="?",
    C_DOUBLE_COMPLEX="c16", C_FLOAT_COMPLEX="c8", DOUBLE_COMPLEX="c16", COMPLEX="c8", C_COMPLEX="c8",
    COMPLEX16="c16", COMPLEX8="c8", DOUBLE_INT=None, REAL8="f8", REAL4="f4").items()}
IN_PLACE = type("InPlace", (), {"__repr__": lambda s: "MPI.IN_PLACE"})()


def _buffer(spec, writable):
    """-> (flat numpy view, counts or None, displs or None).  As mpi4py: contiguous only."""
    counts = displs = dt = None
    if isinstance(spec, (list, tuple)) and not np.isscalar(spec):
        buf, rest = spec[0], list(spec[1:])
        for x in rest:
            if isinstance(x, Datatype):
                dt = x.dt
            elif isinstance(x, str):
                dt = np.dtype(x)
            elif x is None:
                pass
            elif isinstance(x, (int, np.integer)):
                counts = int(x)
            elif counts is None and isinstance(x, (tuple, list)) and len(x) == 2 and not isinstance(x[0], (int, np.integer)):
                counts, displs = list(map(int, x[0])), None if x[1] is None else list(map(int, x[1]))
            elif counts is None:
                counts = [int(i) for i in x]
            else:
                displs = [int(i) for i in x]
    else:
        buf = spec
    if buf is None:
        return None, counts, displs
    if hasattr(buf, "_sim_readonly") or isinstance(buf, np.generic):
        if writable:
            raise BufferError("Object is not writable.")
        arr = np.asarray(buf)
    elif isinstance(buf, np.ndarray):
        arr = buf
    else:
        arr = np.asarray(memoryview(buf))
    if arr.dtype == object:
        raise TypeError("object arrays cannot be communicated as buffers")
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise BufferError("ndarray is not contiguous")
    if writable and not arr.flags.writeable:
        raise BufferError("buffer source array is read-only")
    flat = arr.reshape(-1, order="C" if arr.flags.c_contiguous else "F")
    if dt is not None and dt != flat.dtype:
        flat = flat.view(dt)
    if isinstance(counts, int):
        if counts > flat.size:
            raise MPIException("message: buffer too small for requested count")
        flat = flat[:counts]
    return flat, counts, displs


# --------------------------------------------------------------------------------------------------------- communicators
class Status:
    def __init__(self):
        self.source, self.tag, self.count = ANY_SOURCE, ANY_TAG, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count

    def Get_elements(self, datatype=None):
        return self.count


class Request:
    def __init__(self, req):
        self._req = req

    def wait(self, status=None):
        self._req.status = status
        return _w().visible(WaitOp(self._req, False))

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        req = self._req

        def fn(w, take):
            ch = req.choices(w)
            ok = bool(ch) and (ch[0][0] != "buffer" or w.policy.eager)
            if not take:
                return (ok, None)
            return (True, req.complete(w, ch[0])) if ok else (False, None)

        return _w().visible(TestOp("test:" + req.label(), fn))

    def Test(self, status=None):
        return self.test(status)[0]

    def Free(self):
        self._req.done = True

    def Cancel(self):
        raise Unsupported("Request.Cancel")

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True

    @staticmethod
    def waitany(reqs, status=None):
        raise Unsupported("Request.waitany")

    Waitany = waitany


def _w():
    w = World.active
    if w is None:
        raise Unsupported("MPI communication outside an execution (at import time)")
    return w


World.active = None


def _dumps(x):
    return pickle.dumps(x, 5)


def _loads(b):
    return pickle.loads(b)


class Comm:
    """A rank's handle on a communicator."""

    def __init__(self, ctx, members, rank):
        self.ctx, self.members, self._rank = ctx, tuple(members), rank
        self.freed = False

    def __reduce__(self):
        raise TypeError("cannot pickle communicators")

    def __eq__(self, other):
        return isinstance(other, Comm) and self.ctx == other.ctx

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.ctx)

    def __bool__(self):
        return True

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise Unsupported("Comm." + a)

    def ctxname(self):
        return "WORLD" if self.ctx == ("W",) else "/".join(str(x).split("@")[0] for x in self.ctx)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self.members)

    rank = property(lambda s: s._rank)
    size = property(lambda s: len(s.members))
    name = property(lambda s: s.ctxname())

    def Get_name(self):
        return self.ctxname()

    def Set_name(self, n):
        pass

    def Get_group(self):
        return Group(self.members)

    group = property(Get_group)

    def Is_inter(self):
        return False

    is_inter = property(lambda s: False)
    is_intra = property(lambda s: True)

    @staticmethod
    def Compare(a, b):
        return 0 if a.ctx == b.ctx else 1 if a.members == b.members else 2 if set(a.members) == set(b.members) else 3

    def Free(self):
        self.freed = True

    Disconnect = Free

    def Abort(self, errorcode=0):
        w = _w()
        w.fatal = f"rank {self._rank} called Abort({errorcode})"
        w.stop()
        raise SimAbort()

    # ---- collectives on pickled objects
    def _coll(self, name, data, compute, root=None, sig=None):
        if root is not None and not 0 <= root < self.size:
            raise MPIException("MPI_ERR_ROOT: invalid root")
        return _w().visible(CollOp(self, name, sig, data, compute, root))

    def barrier(self):
        self._coll("barrier", None, lambda c, me, w: None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        data = _dumps(obj) if self._rank == root else None
        return self._coll("bcast", data, lambda c, me, w: _loads(c[root]), root, "obj")

    def gather(self, sendobj, root=0):
        n = self.size
        return self._coll("gather", _dumps(sendobj),
                          lambda c, me, w: [_loads(c[i]) for i in range(n)] if me == root else None, root, "obj")

    def scatter(self, sendobj=None, root=0):
        data = None
        if self._rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError(f"expecting {self.size} items, got {len(sendobj)}")
            data = [_dumps(x) for x in sendobj]
        return self._coll("scatter", data, lambda c, me, w: _loads(c[root][me]), root, "obj")

    def allgather(self, sendobj):
        n = self.size
        return self._coll("allgather", _dumps(sendobj), lambda c, me, w: [_loads(c[i]) for i in range(n)], None, "obj")

    def alltoall(self, sendobj):
        n = self.size
        sendobj = list(sendobj)
        if len(sendobj) != n:
            raise ValueError(f"expecting {n} items, got {len(sendobj)}")
        return self._coll("alltoall", [_dumps(x) for x in sendobj],
                          lambda c, me, w: [_loads(c[i][me]) for i in range(n)], None, "obj")

    def _reduceobj(self, c, op, ranks, w):
        ranks = list(ranks)
        if w.policy.order < 0:
            ranks.reverse()
        elif w.policy.order > 1:
            k = w.policy.order % len(ranks)
            ranks = ranks[k:] + ranks[:k]
        acc = _loads(c[ranks[0]])
        for i in ranks[1:]:
            acc = op(acc, _loads(c[i]))
        return acc

    def reduce(self, sendobj, op=OPS["SUM"], root=0):
        return self._coll("reduce", _dumps(sendobj),
                          lambda c, me, w: self._reduceobj(c, op, range(self.size), w) if me == root else None, root,
                          f"obj {op.name}")

    def allreduce(self, sendobj, op=OPS["SUM"]):
        return self._coll("allreduce", _dumps(sendobj),
                          lambda c, me, w: self._reduceobj(c, op, range(self.size), w), None, f"obj {op.name}")

    def scan(self, sendobj, op=OPS["SUM"]):
        return self._coll("scan", _dumps(sendobj), lambda c, me, w: self._reduceobj(c, op, range(me + 1), _Plain), None,
                          f"obj {op.name}")

    def exscan(self, sendobj, op=OPS["SUM"]):
        return self._coll("exscan", _dumps(sendobj),
                          lambda c, me, w: self._reduceobj(c, op, range(me), _Plain) if me else None, None,
                          f"obj {op.name}")

    # ---- collectives on buffers
    def _sigbuf(self, b):
        return f"{b.size}x{b.dtype.str}"

    def Allreduce(self, sendbuf, recvbuf, op=OPS["SUM"]):
        r, _, _ = _buffer(recvbuf, True)
        s = r.copy() if sendbuf is IN_PLACE else _buffer(sendbuf, False)[0].copy()
        if s.size != r.size:
            raise ValueError(f"mismatch in send count {s.size} and receive count {r.size}")
        if s.dtype != r.dtype:
            raise ValueError(f"mismatch in send and receive MPI datatypes {s.dtype} {r.dtype}")

        def compute(c, me, w):
            order = list(range(self.size))
            if w.policy.order < 0:
                order.reverse()
            elif w.policy.order > 1:
                k = w.policy.order % self.size
                order = order[k:] + order[:k]
            acc = c[order[0]].copy()
            for i in order[1:]:
                acc = op.buf(acc, c[i]).astype(acc.dtype)
            return acc

        r[...] = self._coll("allreduce", s, compute, None, f"{op.name} {self._sigbuf(s)}")

    def Reduce(self, sendbuf, recvbuf, op=OPS["SUM"], root=0):
        me = self._rank
        r = _buffer(recvbuf, True)[0] if me == root else None
        s = r.copy() if sendbuf is IN_PLACE else _buffer(sendbuf, False)[0].copy()

        def compute(c, me, w):
            if me != root:
                return None
            acc = c[0].copy()
            for i in range(1, self.size):
                acc = op.buf(acc, c[i]).astype(acc.dtype)
            return acc

        v = self._coll("reduce", s, compute, root, f"{op.name} {self._sigbuf(s)}")
        if me == root:
            if v.size != r.size:
                raise MPIException("MPI_ERR_TRUNCATE")
            r[...] = v

    def Bcast(self, buf, root=0):
        b, _, _ = _buffer(buf, self._rank != root)
        v = self._coll("bcast", b.copy() if self._rank == root else None, lambda c, me, w: c[root], root, self._sigbuf(b))
        if self._rank != root:
            b[...] = v

    def _allgatherv(self, sendbuf, recvbuf, v):
        r, counts, displs = _buffer(recvbuf, True)
        n = self.size
        if not isinstance(counts, list):
            counts = [r.size // n] * n
            if r.size % n:
                raise ValueError("message: buffer size not a multiple of the number of processes")
        if displs is None:
            displs = [sum(counts[:i]) for i in range(n)]
        me = self._rank
        s = (r[displs[me]:displs[me] + counts[me]] if sendbuf is IN_PLACE else _buffer(sendbuf, False)[0]).copy()
        return r, s, counts, displs

    def Allgather(self, sendbuf, recvbuf):
        r, s, counts, displs = self._allgatherv(sendbuf, recvbuf, False)
        c = self._coll("allgather", s, lambda c, me, w: [c[i] for i in range(self.size)], None, "buf")
        for i, x in enumerate(c):
            _place(r, x, counts[i], displs[i])

    Allgatherv = Allgather

    def Gather(self, sendbuf, recvbuf, root=0):
        if self._rank == root:
            r, s, counts, displs = self._allgatherv(sendbuf, recvbuf, False)
        else:
            s = _buffer(sendbuf, False)[0].copy()
        c = self._coll("gather", s, lambda c, me, w: [c[i] for i in range(self.size)] if me == root else None, root, "buf")
        if self._rank == root:
            for i, x in enumerate(c):
                _place(r, x, counts[i], displs[i])

    Gatherv = Gather

    def Scatter(self, sendbuf, recvbuf, root=0):
        data = None
        if self._rank == root:
            s, counts, displs = _buffer(sendbuf, False)
            n = self.size
            if not isinstance(counts, list):
                counts = [s.size // n] * n
            if displs is None:
                displs = [sum(counts[:i]) for i in range(n)]
            data = [s[displs[i]:displs[i] + counts[i]].copy() for i in range(n)]
        x = self._coll("scatter", data, lambda c, me, w: c[root][me], root, "buf")
        if recvbuf is not IN_PLACE:
            r = _buffer(recvbuf, True)[0]
            _place(r, x, r.size, 0)

    Scatterv = Scatter

    def Alltoall(self, sendbuf, recvbuf):
        n = self.size
        s, sc, sd = _buffer(sendbuf, False)
        r, rc, rd = _buffer(recvbuf, True)
        if not isinstance(sc, list):
            sc = [s.size // n] * n
        if not isinstance(rc, list):
            rc = [r.size // n] * n
        sd = sd or [sum(sc[:i]) for i in range(n)]
        rd = rd or [sum(rc[:i]) for i in range(n)]
        c = self._coll("alltoall", [s[sd[i]:sd[i] + sc[i]].copy() for i in range(n)],
                       lambda c, me, w: [c[i][me] for i in range(n)], None, "buf")
        for i, x in enumerate(c):
            _place(r, x, rc[i], rd[i])

    Alltoallv = Alltoall

    # ---- point to point
    def _sendobj(self, obj, dest, tag, **kw):
        return SendReq(self, dest, tag, _dumps(obj), "obj", None, **kw)

    def _recvobj(self, source, tag):
        def unpack(m):
            if m.kind != "obj":
                raise MPIException("a buffer message was received as a pickled object")
            return _loads(m.data)

        return RecvReq(self, source, tag, unpack)

    def send(self, obj, dest, tag=0):
        _w().visible(WaitOp(self._sendobj(obj, dest, tag), True))

    def ssend(self, obj, dest, tag=0):
        _w().visible(WaitOp(self._sendobj(obj, dest, tag, sync=True), True))

    def bsend(self, obj, dest, tag=0):
        _w().visible(WaitOp(self._sendobj(obj, dest, tag, buffered=True), True))

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        req = self._recvobj(source, tag)
        req.status = status
        return _w().visible(WaitOp(req, True))

    def isend(self, obj, dest, tag=0):
        req = self._sendobj(obj, dest, tag)
        _w().visible(PostOp(req))
        return Request(req)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        req = self._recvobj(source, tag)
        _w().visible(PostOp(req))
        return Request(req)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.irecv(source=source, tag=recvtag)
        s = self.isend(sendobj, dest, sendtag)
        v = r.wait(status)
        s.wait()
        return v

    def _sendbuf(self, buf, dest, tag, live=False, **kw):
        b, _, _ = _buffer(buf, False)
        return SendReq(self, dest, tag, b if live else b.copy(), "buf", None, **kw)

    def _recvbuf(self, buf, source, tag):
        b, _, _ = _buffer(buf, True)

        def unpack(m):
            x = np.frombuffer(m.data, dtype="u1") if m.kind == "obj" else m.data
            if m.kind != "obj" and x.dtype != b.dtype:
                raise MPIException(f"type mismatch: sent {x.dtype}, receiving {b.dtype}")
            if x.size * x.dtype.itemsize > b.size * b.dtype.itemsize:
                raise MPIException("MPI_ERR_TRUNCATE: message truncated")
            b[:x.size] = x
            return None

        return RecvReq(self, source, tag, unpack)

    def Send(self, buf, dest, tag=0):
        _w().visible(WaitOp(self._sendbuf(buf, dest, tag), True))

    def Ssend(self, buf, dest, tag=0):
        _w().visible(WaitOp(self._sendbuf(buf, dest, tag, sync=True), True))

    def Bsend(self, buf, dest, tag=0):
        _w().visible(WaitOp(self._sendbuf(buf, dest, tag, buffered=True), True))

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        req = self._recvbuf(buf, source, tag)
        req.status = status
        _w().visible(WaitOp(req, True))

    def Isend(self, buf, dest, tag=0):
        # the buffer is read when the message is received: changing it before that is a race MPI leaves undefined
        req = self._sendbuf(buf, dest, tag, live=True)
        _w().visible(PostOp(req))
        return Request(req)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        req = self._recvbuf(buf, source, tag)
        _w().visible(PostOp(req))
        return Request(req)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        b, _, _ = _buffer(sendbuf, False)
        r = self.Irecv(recvbuf, source, recvtag)
        req = SendReq(self, dest, sendtag, b.copy(), "buf", None)
        _w().visible(PostOp(req))
        r.wait(status)
        Request(req).wait()

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = _w().visible(ProbeOp(self, source, tag))
        if status is not None:
            status.source, status.tag, status.count = m.src, m.tag, getattr(m.data, "size", len(m.data))
        return True

    Probe = probe

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        req = RecvReq(self, source, tag, None)

        def fn(w, take):
            c = req.candidates(w)
            if c and status is not None and take:
                status.source, status.tag, status.count = c[0].src, c[0].tag, getattr(c[0].data, "size", len(c[0].data))
            return (bool(c), None)

        return _w().visible(TestOp(f"iprobe(source={source}, tag={tag})", fn))[0]

    Iprobe = iprobe

    # ---- communicator management
    def Split(self, color=0, key=0):
        n, ctx = self.size, self.ctx
        seq = _w().collseq.get((ctx, self._rank), 0)

        def compute(c, me, w):
            col = c[me][0]
            if col == UNDEFINED:
                return COMM_NULL
            mem = sorted((c[i][1], i) for i in range(n) if c[i][0] == col)
            order = [i for _, i in mem]
            return type(self)(ctx + (f"split{seq}:{col}@{w.epoch}",), [self.members[i] for i in order], order.index(me))

        color = int(color)
        return self._coll("split", (color, int(key)), compute)

    def Dup(self, info=None):
        ctx = self.ctx
        seq = _w().collseq.get((ctx, self._rank), 0)
        return self._coll("dup", None, lambda c, me, w: type(self)(ctx + (f"dup{seq}@{w.epoch}",), self.members, me))

    Clone = Dup

    def Split_type(self, split_type, key=0, info=None):
        return self.Split(0, key)

    def Create_group(self, group, tag=0):
        raise Unsupported("Create_group")

    def Create(self, group):
        ctx = self.ctx
        seq = _w().collseq.get((ctx, self._rank), 0)
        mem = group.members

        def compute(c, me, w):
            if self.members[me] not in mem:
                return COMM_NULL
            return type(self)(ctx + (f"create{seq}@{w.epoch}",), mem, list(mem).index(self.members[me]))

        return self._coll("create", None, compute)


class _Plain:
    class policy:
        order = 1


def _place(r, x, count, displ):
    if x.dtype != r.dtype:
        raise MPIException(f"type mismatch: sent {x.dtype}, receiving {r.dtype}")
    if x.size > count:
        raise MPIException("MPI_ERR_TRUNCATE: message truncated")
    r[displ:displ + x.size] = x


class Group:
    def __init__(self, members):
        self.members = tuple(members)

    def Get_size(self):
        return len(self.members)

    size = property(Get_size)

    def Incl(self, ranks):
        return Group([self.members[r] for r in ranks])

    def Excl(self, ranks):
        return Group([m for i, m in enumerate(self.members) if i not in set(ranks)])

    def Free(self):
        pass


class _Null:
    def __repr__(self):
        return "MPI.COMM_NULL"

    def __bool__(self):
        return False


COMM_NULL = _Null()


def make_mpi_module(rank, size):
    """The `mpi4py` package and its MPI module as rank `rank` of `size` sees them."""
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    mpi = types.ModuleType("mpi4py.MPI")
    pkg.MPI = mpi
    pkg.__version__ = "4.1.2"
    pkg.get_include = lambda: ""

    class Intracomm(Comm):
        pass

    mpi.Comm, mpi.Intracomm = Comm, Intracomm
    mpi.COMM_WORLD = Intracomm(("W",), range(size), rank)
    mpi.COMM_SELF = Intracomm(("S", rank), [rank], 0)
    mpi.COMM_NULL = COMM_NULL
    mpi.ANY_SOURCE, mpi.ANY_TAG, mpi.PROC_NULL, mpi.UNDEFINED = ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED
    mpi.IDENT, mpi.CONGRUENT, mpi.SIMILAR, mpi.UNEQUAL = 0, 1, 2, 3
    mpi.COMM_TYPE_SHARED, mpi.ROOT = 1, -3
    mpi.IN_PLACE = IN_PLACE
    mpi.BOTTOM = None
    mpi.Op, mpi.Status, mpi.Request, mpi.Datatype, mpi.Exception, mpi.Group = (
        ReduceOp, Status, Request, Datatype, MPIException, Group)
    mpi.REQUEST_NULL = Request(type("R", (), {"choices": lambda s, w: [("go",)], "complete": lambda s, w, c: None,
                                              "label": lambda s: "null", "status": None})())
    for n, o in OPS.items():
        setattr(mpi, n, o)
    for n, d in DATATYPES.items():
        setattr(mpi, n, d)
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Init = mpi.Finalize = lambda: None
    mpi.Get_processor_name = lambda: "sim"
    mpi.Wtime = lambda: 0.0
    mpi.Get_version = lambda: (3, 1)
    mpi.get_vendor = lambda: ("sim", (1, 0, 0))
    mpi.THREAD_MULTIPLE = 3
    mpi._typedict = {d.dt.char: d for d in DATATYPES.values() if d.dt is not None}
    util = types.ModuleType("mpi4py.util")
    dtl = types.ModuleType("mpi4py.util.dtlib")

    def from_numpy_dtype(dt):
        dt = np.dtype(dt)
        return next(d for d in DATATYPES.values() if d.dt == dt)

    dtl.from_numpy_dtype = from_numpy_dtype
    dtl.to_numpy_dtype = lambda d: d.dt
    util.dtlib = dtl
    util.__path__ = []
    pkg.util = util
    return {"mpi4py": pkg, "mpi4py.MPI": mpi, "mpi4py.util": util, "mpi4py.util.dtlib": dtl}
