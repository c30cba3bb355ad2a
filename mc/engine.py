"""Runs one program on N simulated ranks (see simmpi.py), on fresh or persistent copies of pylops_mpi, and explores the
schedules of a program exhaustively."""

import ctypes
import gc
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import sys
import threading
import time
import traceback
import warnings

import numpy as np

from . import simmpi
from .simmpi import MPIException, Policy, SimAbort, Unsupported, World

REPO = os.environ.get("PYLOPS_MPI_REPO", "/repo")
PKG = "pylops_mpi"


# ------------------------------------------------------------------------------------------------------------- loading
class _Code:
    """Compiled sources of the package, from the working tree, compiled once per process (no .pyc is read or written)."""

    codes = {}

    @classmethod
    def find(cls, name):
        if name in cls.codes:
            return cls.codes[name]
        base = os.path.join(REPO, *name.split("."))
        got = None
        for path, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(path):
                with open(path, "rb") as f:
                    src = f.read()
                got = (compile(src, path, "exec", dont_inherit=True), path, pkg)
                break
        if got is None and os.path.isdir(base):
            got = (compile("", base, "exec"), base, True)
        cls.codes[name] = got
        return got


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        got = _Code.find(name)
        if got is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=got[1], is_package=got[2])
        if got[2]:
            spec.submodule_search_locations = [os.path.dirname(got[1])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, path, _ = _Code.find(module.__name__)
        module.__file__ = path
        exec(code, module.__dict__)


FINDER = _Finder()
SWAPPED = (PKG, "mpi4py")


def _ours(name):
    return any(name == p or name.startswith(p + ".") for p in SWAPPED)


def load_rank(rank, size):
    """A private copy of pylops_mpi (all submodules) bound to the simulated MPI of this rank: dict for sys.modules."""
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    for n in [n for n in sys.modules if _ours(n)]:
        del sys.modules[n]
    sys.modules.update(simmpi.make_mpi_module(rank, size))
    importlib.import_module(PKG)
    for sub in ("utils", "utils.decorators", "utils.dottest", "optimization", "optimization.basic", "optimization.cls_basic",
                "basicoperators", "signalprocessing", "waveeqprocessing", "plotting.plotting", "DistributedArray",
                "LinearOperator", "StackedLinearOperator"):
        importlib.import_module(PKG + "." + sub)
    mods = {n: m for n, m in sys.modules.items() if _ours(n)}
    for n in mods:
        del sys.modules[n]
    return mods


class Universes:
    """Copies of the package per (size, rank).  They live on from one execution to the next, as in a long-running process,
    unless an execution ended abnormally."""

    cache = {}

    @classmethod
    def get(cls, size, fresh=False):
        if fresh or size not in cls.cache:
            cls.cache[size] = [load_rank(r, size) for r in range(size)]
        return cls.cache[size]

    @classmethod
    def drop(cls, size=None):
        if size is None:
            cls.cache.clear()
        else:
            cls.cache.pop(size, None)


# ------------------------------------------------------------------------------------------- environment of the program
class Env:
    """What a program sees: the same class serves simulated and real ranks."""

    def __init__(self, rank, size, modules):
        self.rank, self.size = rank, size
        self._m = modules
        self.pm = modules[PKG]
        self.MPI = modules["mpi4py.MPI"]
        self.world = self.MPI.COMM_WORLD

    def mod(self, name):
        return self._m[PKG + "." + name]

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        pm = self.__dict__["pm"]
        if hasattr(pm, a):
            return getattr(pm, a)
        for sub in ("signalprocessing", "waveeqprocessing", "utils.dottest", "utils.decorators", "DistributedArray",
                    "LinearOperator", "StackedLinearOperator", "optimization.cls_basic", "optimization.basic"):
            m = self._m.get(PKG + "." + sub)
            if m is not None and hasattr(m, a):
                return getattr(m, a)
        raise AttributeError(f"pylops_mpi offers no {a}")


class _Out(io.TextIOBase):
    """stdout of the rank that is running."""

    def __init__(self, real):
        self.real = real

    def write(self, s):
        w = World.active
        if w is None or w.current is None:
            return self.real.write(s)
        w.stdout[w.current.rank].append(s)
        return len(s)

    def flush(self):
        if World.active is None:
            self.real.flush()


_real_empty, _real_empty_like = np.empty, np.empty_like


FILL = [0]  # what fresh memory holds


def _poison(a):
    if FILL[0]:
        if a.dtype.kind in "fciu":
            a.fill(np.array(-77.75 * FILL[0]).astype(a.dtype))
        elif a.dtype.kind == "b":
            a.fill(False)
    elif a.dtype.kind in "fc":
        a.fill(np.nan)
    elif a.dtype.kind in "iu":
        a.fill(np.array(0x5A5A5A5A5A5A5A5A).astype(a.dtype))
    elif a.dtype.kind == "b":
        a.fill(True)
    return a


def _empty(*a, **k):
    return _poison(_real_empty(*a, **k))


def _empty_like(*a, **k):
    return _poison(_real_empty_like(*a, **k))


class Outcome:
    """What one execution did."""

    def __init__(self, world):
        w = world
        self.size = w.size
        self.kind = []  # per rank: "ret", "exc", "stuck"
        self.value, self.exc, self.tb = [], [], []
        for k in w.ranks:
            if k.state == "done":
                self.kind.append("ret")
            elif k.state == "exc":
                self.kind.append("exc")
            else:
                self.kind.append("stuck")
            self.value.append(k.result)
            self.exc.append(k.exc)
            self.tb.append(k.tb)
        self.ops = [k.op.label() if k.op is not None else None for k in w.ranks]
        self.fatal, self.unsupported, self.pruned, self.unsafe = w.fatal, w.unsupported, w.pruned, w.unsafe
        self.hang = w.hang
        self.steps, self.branch, self.points = w.steps, w.branch, w.points
        self.stdout = ["".join(x) for x in w.stdout]
        self.calls = [k.calls for k in w.ranks]
        self.leftover = []
        if all(x == "ret" for x in self.kind):
            for (ctx, dst), ms in sorted(w.mail.items(), key=str):
                for m in ms:
                    self.leftover.append(f"message from rank {m.src} to rank {dst} (tag {m.tag}) was never received")
            for (ctx, dst), rs in sorted(w.posted.items(), key=str):
                for r in rs:
                    self.leftover.append(f"rank {dst} posted {r.label()} and no message ever came")
            for r in w.requests:
                if not r.done:
                    self.leftover.append(f"nobody completed the request of {r.label()}")
            for (ctx, seq), c in sorted(w.colls.items(), key=str):
                if c.left != c.members:
                    self.leftover.append(f"{c.name} #{seq} on communicator {ctx} was entered by ranks {sorted(c.contrib)} only")

    @property
    def deadlock(self):
        return not self.fatal and not self.pruned and not self.unsupported and not self.hang and "stuck" in self.kind and (
            "exc" not in self.kind)

    def trouble(self):
        """Text if the execution did not end with every rank returning or every rank raising; None if it did."""
        if self.unsupported:
            return None
        if self.hang:
            return f"does not terminate: {self.hang}"
        if self.fatal:
            return self.fatal
        if self.pruned:
            return None
        if "stuck" in self.kind:
            parts = []
            for r in range(self.size):
                if self.kind[r] == "stuck":
                    parts.append(f"rank {r} waits in {self.ops[r]} for ever")
                elif self.kind[r] == "exc":
                    parts.append(f"rank {r} raised {self.exc[r]}")
                else:
                    parts.append(f"rank {r} returned")
            return "; ".join(parts)
        if self.unsafe:
            return f"relies on buffering of standard-mode sends: {self.unsafe}"
        if "exc" in self.kind and "ret" in self.kind:
            return "; ".join(
                f"rank {r} raised {self.exc[r]}" if self.kind[r] == "exc" else f"rank {r} returned" for r in range(self.size))
        if self.leftover:
            return self.leftover[0]
        return None

    def raised(self):
        return all(x == "exc" for x in self.kind)

    def first_exc(self):
        for r in range(self.size):
            if self.kind[r] == "exc":
                return f"rank {r} raised {self.exc[r]}"
        return None


WALL = float(os.environ.get("MC_WALL", "240"))


def execute(program, size, policy=None, fresh=False, horizon=200000, keep=True):
    """Runs program(env) on `size` ranks under `policy`; returns an Outcome."""
    policy = policy or Policy()
    unis = Universes.get(size, fresh)
    w = World(size, policy, unis, horizon)
    w.stdout = [[] for _ in range(size)]
    w.hang = None
    envs = [Env(r, size, unis[r]) for r in range(size)]

    def body(k):
        k.lock.acquire()
        if w.aborting:
            return
        k.state = "running"
        k.choice = None
        try:
            k.result = program(envs[k.rank])
            k.state = "done"
        except SimAbort:
            if k.state == "running":
                k.state = "blocked"
        except Unsupported as e:
            w.unsupported = str(e)
            k.state = "blocked"
            w.stop()
        except BaseException as e:  # noqa: BLE001
            k.state = "exc"
            k.exc = (type(e).__name__, str(e)[:400])
            k.tb = traceback.format_exc(limit=-6)
        finally:
            try:
                w.finish(k)
            except Unsupported as e:
                w.unsupported = str(e)
                w.stop()

    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in w.ranks]
    saved_out, saved_mods = sys.stdout, {n: sys.modules[n] for n in unis[0] if n in sys.modules}
    World.active = w
    np.empty, np.empty_like = _empty, _empty_like
    sys.stdout = _Out(saved_out)
    try:
        for t in threads:
            t.start()
        first = w.pick()
        if first is not None:
            w.handover(first)
            if not w.done.wait(WALL):
                k = w.current
                w.hang = f"rank {k.rank} computes for more than {WALL:.0f} s without an MPI call"
                w.aborting = True
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(threads[k.rank].ident), ctypes.py_object(SimAbort))
                threads[k.rank].join(20)
        w.aborting = True
        for k in w.ranks:
            if threads[k.rank].is_alive() and k.state in ("new", "blocked"):
                w.current = k
                try:
                    k.lock.release()
                except RuntimeError:
                    pass
                threads[k.rank].join(20)
        for t in threads:
            t.join(20)
    finally:
        np.empty, np.empty_like = _real_empty, _real_empty_like
        sys.stdout = saved_out
        World.active = None
        for n in unis[0]:
            sys.modules.pop(n, None)
        sys.modules.update(saved_mods)
    out = Outcome(w)
    if out.trouble() or out.unsupported or not keep:
        Universes.drop(size)
    return out


# ------------------------------------------------------------------------------------------------------------- explorer
class _Explore(Policy):
    explore = True

    def __init__(self, ex, prefix, eager, early, order):
        self.ex, self.prefix, self.eager, self.early, self.order = ex, prefix, eager, early, order
        self.trace = []  # (state, options, index)
        self.descending = False

    def choose(self, world, options):
        ex = self.ex
        i = len(self.trace)
        key = world.key()
        if i < len(self.prefix):
            skey, idx = self.prefix[i]
            if skey != key or idx >= len(options):
                ex.diverged = True
                world.fatal = "the same schedule did not lead to the same MPI operations twice"
                return None
            self.trace.append((key, len(options), idx))
            return options[idx]
        ex.transitions += len(options) if key not in ex.seen else 0
        if key in ex.seen:
            return None
        if len(ex.seen) >= ex.max_states:
            ex.capped = True
            return None
        ex.seen.add(key)
        self.trace.append((key, len(options), 0))
        return options[0]


class Explorer:
    """Depth-first search of all schedules, buffering choices and matchings of a program; a state is (per rank: position,
    hash of everything it received, pending operation).  A state that was expanded before is not expanded again: the local
    state of a rank is a function of what it received, and the messages in flight are one of what the ranks have sent."""

    def __init__(self, program, size, eager=True, early=True, order=1, max_states=200000, deadline=None):
        self.program, self.size = program, size
        self.eager, self.early, self.order = eager, early, order
        self.max_states, self.deadline = max_states, deadline
        self.seen, self.transitions, self.executions, self.capped = set(), 0, 0, False
        self.complete, self.maxlen = 0, 0
        self.diverged, self.fresh = False, False

    def run(self, visit):
        """visit(outcome, schedule) for every execution that was run to its end; stops if it returns True."""
        execute(self.program, self.size)  # fills whatever the code under test caches
        self._run(visit)
        if self.diverged and not self.fresh:  # ... unless it keeps more history than that: restart from fresh copies
            self.fresh, self.diverged = True, False
            self.seen, self.transitions, self.capped = set(), 0, False
            self._run(visit)

    def _run(self, visit):
        stack = [[]]
        while stack:
            if self.deadline and time.time() > self.deadline:
                self.capped = True
                return
            prefix = stack.pop()
            pol = _Explore(self, prefix, self.eager, self.early, self.order)
            out = execute(self.program, self.size, pol, fresh=self.fresh)
            self.executions += 1
            if self.diverged and not self.fresh:
                return
            self.maxlen = max(self.maxlen, len(pol.trace))
            if not out.pruned or self.diverged:
                self.complete += 1
                if visit(out, [(t[2]) for t in pol.trace]):
                    return
            for i in range(len(pol.trace) - 1, len(prefix) - 1, -1):
                key, n, idx = pol.trace[i]
                for alt in range(n - 1, 0, -1):
                    stack.append([(t[0], t[2]) for t in pol.trace[:i]] + [(key, alt)])


class Scripted(Policy):
    """Replays a schedule given as option indices."""

    explore = True

    def __init__(self, script, eager=True, early=True, order=1):
        super().__init__(eager, early, False, order)
        self.script, self.i = script, 0

    def choose(self, world, options):
        idx = self.script[self.i] if self.i < len(self.script) else 0
        self.i += 1
        return options[min(idx, len(options) - 1)]


def quiet():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    gc.set_threshold(20000, 20, 20)
