"""Check driver: enumerates the cases of a property's families completely, runs each on the simulated ranks under every
environment policy of the family (or explores its whole schedule graph), judges it, replays a stratified part of the cases
on real MPI processes, writes the evidence file, prints the verdict."""

import ast
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, "replays")

ASC = dict(eager=True, early=True, descending=False, order=1)
DESC = dict(eager=False, early=False, descending=True, order=-1)
ROT = dict(eager=True, early=False, descending=True, order=2)


class Bad(Exception):
    """Raised by an oracle: the property is violated."""


class Family:
    """One enumerated space of executions.

    configs(tier) -> list of dicts with at least P (ranks); program(env, cfg) -> observation of one rank (picklable);
    oracle(cfg, obs): obs = list of per-rank observations, or None if every rank raised (then `exc` is passed); raises Bad.
    """

    name = "family"
    policies = (ASC, DESC)
    explore = False  # explore all schedules of each case
    explore_modes = ((True, True), (False, False))
    max_states = 60000
    real = True  # may be replayed on real MPI
    tolerate_partial = False  # ranks may disagree on raising: the oracle gets the outcome

    def configs(self, tier):
        return []

    def program(self, env, cfg):
        raise NotImplementedError

    def oracle(self, cfg, obs):
        raise NotImplementedError

    def on_raise(self, cfg, out):
        """every rank raised"""
        raise Bad("every rank raised; " + str(out.first_exc()))

    def on_partial(self, cfg, out):
        raise Bad(out.trouble())

    def judge(self, cfg, out):
        """None or a text."""
        try:
            t = out.trouble()
            if t is not None:
                if self.tolerate_partial and not out.fatal and not out.hang and "exc" in out.kind:
                    self.on_partial(cfg, out)
                    return None
                return t
            if out.unsupported or out.pruned:
                return None
            if out.raised():
                self.on_raise(cfg, out)
            else:
                self.oracle(cfg, out.value)
        except Bad as e:
            return str(e)
        return None

    def size_of(self, cfg):
        return cfg["P"]

    def policies_for(self, cfg, idx):
        return self.policies

    def real_close(self, cfg):
        """are observations on real MPI compared with the simulator's value by value (or only both judged by the oracle)?"""
        return True

    def real_ok(self, cfg):
        """may this case be replayed on real MPI (it must not hang there)"""
        return True


# ----------------------------------------------------------------------------------------------------------- comparisons
def tol_of(*dts):
    t = 1e-9
    for d in dts:
        d = np.dtype(d)
        if d in (np.dtype("f4"), np.dtype("c8")):
            t = 2e-4
        elif d == np.dtype("f2"):
            t = 2e-2
    return t


def short(a, n=14):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:n], precision=5, separator=",", threshold=n + 1).replace("\n", "")
    return f"{s}{'...' if a.size > n else ''} (shape {a.shape}, {a.dtype})"


def same(got, want, what, tol=None, dtype=None, shape=True):
    got, want = np.asarray(got), np.asarray(want)
    if shape and got.shape != want.shape:
        raise Bad(f"{what}: shape {got.shape}, should be {want.shape}")
    if dtype is not None and got.dtype != np.dtype(dtype):
        raise Bad(f"{what}: dtype {got.dtype}, should be {np.dtype(dtype)}")
    if got.size == 0:
        return
    if tol is None:
        tol = tol_of(got.dtype, want.dtype)
    if got.dtype == object or want.dtype == object:
        if not np.array_equal(got, want):
            raise Bad(f"{what}: {got!r}, should be {want!r}")
        return
    scale = max(1.0, float(np.max(np.abs(want))) if np.all(np.isfinite(want)) else 1.0)
    if not np.allclose(got, want, rtol=tol, atol=tol * scale, equal_nan=True):
        raise Bad(f"{what}: {short(got)}, should be {short(want)}")


def need(cond, text):
    if not cond:
        raise Bad(text)


# --------------------------------------------------------------------------------------------------------------- running
def load_property(pid):
    return importlib.import_module(f"mc.props.{pid.lower()}")


def _sig(x):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, x)
    return h.hexdigest()


def _feed(h, x):
    """A digest of the value (never of object identities), floating point rounded to 6 digits."""
    if isinstance(x, (np.ndarray, np.generic)):
        y = np.asarray(x)
        if y.dtype.kind in "fc":
            y = np.round(y, 6) + 0.0
            y = np.where(np.isnan(y), np.array(np.nan, dtype=y.dtype), y)
        h.update(f"a{y.shape}{y.dtype}".encode())
        h.update(np.ascontiguousarray(y).tobytes())
    elif isinstance(x, dict):
        h.update(b"{")
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b"(%d" % len(x))
        for v in x:
            _feed(h, v)
    elif isinstance(x, float):
        h.update(repr(round(x, 6) + 0.0).encode())
    else:
        h.update((type(x).__name__ + repr(x)).encode())


def run_case(fam, cfg, pol, fresh=False):
    from . import engine, simmpi

    return engine.execute(lambda env: fam.program(env, cfg), fam.size_of(cfg), simmpi.Policy(**pol), fresh=fresh)


def _worker(pid, shard, nshards, tier, deadline, q, stopev, keep):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import engine

    engine.quiet()
    try:  # rank threads hand over to each other faster on one core
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[shard % len(cpus)]})
    except (AttributeError, OSError):
        pass
    prop = load_property(pid)
    stats = dict(cases=0, executions=0, transitions=0, branch=0, states=0, schedules=0, capped=0, unsupported=[], outcomes=set(),
                 skipped=0, raised=0, samples=[], values=[], per_family={})
    bad = []
    try:
        jobs = jobs_of(prop, tier)
        mine = [j for j in jobs if shard_of(j[0], nshards) == shard]
        hist = []
        for idx, fi, cfg in mine:
            if stopev.is_set():
                break
            if time.time() > deadline:
                stats["skipped"] += 1
                continue
            fam = prop.FAMILIES[fi]
            pf = stats["per_family"].setdefault(fam.name, dict(cases=0, executions=0, transitions=0, states=0))
            stats["cases"] += 1
            pf["cases"] += 1
            text = None
            if fam.explore:
                text, sched, mode, first = explore_case(fam, cfg, stats, pf, deadline)
                if idx in keep and first:
                    stats["values"].append((idx, first))
                how = dict(schedule=sched, mode=mode)
            else:
                for pol in fam.policies_for(cfg, idx):
                    out = run_case(fam, cfg, pol)
                    stats["executions"] += 1
                    pf["executions"] += 1
                    stats["transitions"] += out.steps
                    pf["transitions"] += out.steps
                    stats["branch"] += out.branch
                    stats["states"] += out.steps + 1
                    pf["states"] += out.steps + 1
                    if out.unsupported:
                        stats["unsupported"].append(out.unsupported)
                    if out.raised():
                        stats["raised"] += 1
                    elif len(stats["outcomes"]) < 50000:
                        stats["outcomes"].add(_sig(out.value))
                    text = fam.judge(cfg, out)
                    how = dict(policy=pol)
                    if idx in keep and pol is fam.policies_for(cfg, idx)[0]:
                        stats["values"].append((idx, (list(out.kind), list(out.value) if not out.raised() else None)))
                    if text:
                        break
            if len(stats["samples"]) < 3:
                stats["samples"].append({"family": fam.name, "case": repr(cfg), "verdict": text or "ok"})
            if text:
                bad.append(dict(idx=idx, family=fam.name, cfg=repr(cfg), text=text, how=how, history=list(hist)))
                if len(bad) >= 400:
                    break
                if not known_match(pid, fam.name, cfg, text):
                    stopev.set()
                    if not os.environ.get("MC_ALL"):
                        break
                    stopev.clear()
            hist.append(idx)
    except BaseException:  # noqa: BLE001
        q.put(("error", shard, traceback.format_exc()))
        return
    q.put(("done", shard, stats, bad))


def shard_of(idx, nshards):
    """Fixed (the history of a worker is part of a case), without a period in common with the enumeration orders."""
    return int.from_bytes(hashlib.blake2b(b"%d" % idx, digest_size=4).digest(), "big") % nshards


def explore_case(fam, cfg, stats, pf, deadline):
    from . import engine

    res = [None, None, None, None]
    for eager, early in fam.explore_modes:
        ex = engine.Explorer(lambda env: fam.program(env, cfg), fam.size_of(cfg), eager=eager, early=early,
                             max_states=cfg.get("max_states", fam.max_states), deadline=deadline)
        seen = set()

        def visit(out, sched):
            stats["schedules"] += 1
            if out.unsupported:
                stats["unsupported"].append(out.unsupported)
                return True
            t = fam.judge(cfg, out)
            if res[3] is None and out.trouble() is None:
                res[3] = (list(out.kind), list(out.value) if not out.raised() else None)
            if t is None and not out.raised() and out.trouble() is None:
                s = _sig(out.value)
                seen.add(s)
                if len(seen) > 1:
                    t = "the result depends on the schedule"
            if t:
                res[:3] = [t, sched, (eager, early)]
                return True
            return False

        ex.run(visit)
        stats["executions"] += ex.executions
        stats["transitions"] += ex.transitions
        stats["states"] += len(ex.seen)
        pf["executions"] += ex.executions
        pf["transitions"] += ex.transitions
        pf["states"] += len(ex.seen)
        stats["outcomes"] |= seen
        if ex.capped:
            stats["capped"] += 1
            pf["capped"] = pf.get("capped", 0) + 1
        if res[0]:
            break
    return res


def jobs_of(prop, tier):
    jobs, n = [], 0
    lists = [[(fi, c) for c in f.configs(tier)] for fi, f in enumerate(prop.FAMILIES)]
    # interleave the families, so that a time cap would hit all of them alike
    for row in itertools.zip_longest(*lists):
        for x in row:
            if x is not None:
                jobs.append((n, x[0], x[1]))
                n += 1
    return jobs


# -------------------------------------------------------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known_match(pid, family, cfg, text):
    for k in known_findings():
        if k.get("status") != "open" or k["property"] != pid or k["family"] != family:
            continue
        if k.get("symptom", "") not in text:
            continue
        w = k.get("cases")
        if isinstance(w, list):
            if any(all(cfg.get(a) == ast.literal_eval(b) for a, b in c.items()) for c in w):
                return k
    return None


# ------------------------------------------------------------------------------------------------------------- real MPI
MPIEXEC = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader", "--mca",
           "btl_vader_single_copy_mechanism", "none"]


class RealRuns:
    """Replays cases on real MPI processes (one job per rank count, side by side)."""

    @staticmethod
    def pick(jobs, prop, per_size=24, sizes=(2, 3, 4)):
        res = {}
        for P in sizes:
            by_fam = {}
            for idx, fi, cfg in jobs:
                f = prop.FAMILIES[fi]
                if f.real and f.size_of(cfg) == P and f.real_ok(cfg):
                    by_fam.setdefault(fi, []).append((idx, fi, cfg))
            if by_fam:
                share = max(2, per_size // len(by_fam))
                res[P] = []
                for fi, js in sorted(by_fam.items()):
                    step = max(1, len(js) // share)
                    res[P] += js[::step][:share]
        return res

    def __init__(self, pid, picked):
        self.dir = tempfile.mkdtemp(prefix="mcreal")
        self.procs = []
        self.pid = pid
        for P, pick in sorted(picked.items()):
            inp, outp = os.path.join(self.dir, f"in{P}"), os.path.join(self.dir, f"out{P}")
            with open(inp, "wb") as f:
                pickle.dump((pid, [(i, fi, c) for i, fi, c in pick]), f)
            env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                       TMPDIR=self.dir, HOME=os.environ.get("HOME", "/root"))
            env["PYTHONPATH"] = ROOT
            try:
                p = subprocess.Popen(MPIEXEC + ["-n", str(P), sys.executable, "-m", "mc.real", inp, outp], cwd=self.dir, env=env,
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                     start_new_session=True)
                self.procs.append((P, p, outp))
            except OSError:
                pass

    def finish(self, timeout):
        """-> {idx: per-rank [("ret", obs) | ("exc", text)]}"""
        res, lost = {}, 0
        end = time.time() + timeout
        for P, p, outp in self.procs:
            try:
                p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                pass
            self.kill(p)
            try:
                with open(outp, "rb") as f:
                    while True:
                        try:
                            i, r = pickle.load(f)
                        except EOFError:
                            break
                        res[i] = r
            except (OSError, pickle.UnpicklingError):
                pass
        shutil.rmtree(self.dir, ignore_errors=True)
        return res

    def kill(self, p):
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


class _RealOutcome:
    """A real execution in the shape the judges know."""

    def __init__(self, r):
        self.size = len(r)
        self.kind = [x[0] for x in r]
        self.value = [x[1] if x[0] == "ret" else None for x in r]
        self.exc = [x[1] if x[0] == "exc" else None for x in r]
        self.fatal = self.unsupported = self.hang = self.unsafe = None
        self.pruned = False
        self.leftover = []
        self.stdout = None

    def trouble(self):
        if "exc" in self.kind and "ret" in self.kind:
            return "some ranks raised, others returned: " + str(self.first_exc())
        return None

    def raised(self):
        return all(k == "exc" for k in self.kind)

    def first_exc(self):
        return next((f"rank {i} raised {e}" for i, e in enumerate(self.exc) if e), None)


# ------------------------------------------------------------------------------------------------------------------ main
def preload():
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import pylops  # noqa: F401
    import pylops.signalprocessing  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    from . import engine  # noqa: F401


def write_replay(pid, b, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}.json")
    n = 0
    while os.path.exists(path):
        n += 1
        path = os.path.join(REPLAYS, f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, family=b["family"], case=b["cfg"], what=b["text"], how=b["how"], index=b["idx"],
                       earlier_cases_in_process=b["history"],
                       replay_cmd=f"/opt/venv/bin/python /verif/run_check.py --replay {path}"), f, indent=1)
    return path


def check(pid, tier, seed):
    t0 = time.time()
    preload()
    prop = load_property(pid)
    budget = float(os.environ.get("MC_BUDGET", getattr(prop, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)))
    deadline = t0 + budget
    jobs = jobs_of(prop, tier)
    nsh = int(os.environ.get("MC_PROCS", "16"))
    nsh = max(1, min(nsh, len(jobs)))
    picked = RealRuns.pick(jobs, prop, per_size=getattr(prop, "REAL_PER_SIZE", 24 if tier == "quick" else 120))
    keep = {j[0] for js in picked.values() for j in js}
    ctx = mp.get_context("fork")
    q, stopev = ctx.Queue(), ctx.Event()
    ps = [ctx.Process(target=_worker, args=(pid, s, nsh, tier, deadline, q, stopev, keep), daemon=True) for s in range(nsh)]
    for p in ps:
        p.start()
    stats, bad, errors, got = None, [], [], 0
    while got < nsh:
        try:
            m = q.get(timeout=5)
        except Exception:  # noqa: BLE001
            dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and q.empty():
                errors.append(f"a worker died (exit code {dead[0].exitcode})")
                break
            continue
        got += 1
        if m[0] == "error":
            errors.append(m[2])
        else:
            bad += m[3]
            stats = m[2] if stats is None else merge(stats, m[2])
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    unlisted = [b for b in sorted(bad, key=lambda b: b["idx"]) if not known_match(pid, b["family"], ast.literal_eval(b["cfg"]), b["text"])]
    listed = [b for b in bad if b not in unlisted]
    validated, mism, realbad = 0, [], []
    if getattr(prop, "REAL", True) and not os.environ.get("MC_NOREAL"):
        if not unlisted and not errors:
            real = RealRuns(pid, picked)
            res = real.finish(60 if tier == "quick" else 300)
            byidx = {i: (fi, c) for i, fi, c in jobs}
            values = dict(stats["values"])
            for i, r in sorted(res.items()):
                fi, cfg = byidx[i]
                fam = prop.FAMILIES[fi]
                out = _RealOutcome(r)
                t = fam.judge(cfg, out)
                if t and not known_match(pid, fam.name, cfg, t):
                    realbad.append(dict(idx=i, family=fam.name, cfg=repr(cfg), text=f"on real MPI processes: {t}",
                                        how=dict(real=True), history=[]))
                    continue
                sim = values.get(i)
                if sim is None:
                    continue
                if sim[0] == list(out.kind) and (sim[1] is None or not fam.real_close(cfg) or _close(sim[1], out.value)):
                    validated += 1
                else:
                    mism.append(dict(family=fam.name, case=repr(cfg)))
    if realbad:  # confirm: a verdict on real processes has to repeat
        conf = confirm_real(pid, realbad[0], prop, jobs, tier)
        if conf:
            unlisted = [realbad[0]]
    wall = time.time() - t0
    stats = stats or dict(cases=0, executions=0, transitions=0, states=0, schedules=0, outcomes=set(), samples=[], capped=0,
                          skipped=0, unsupported=[], raised=0, branch=0, per_family={})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(stats["states"]), transitions=int(stats["transitions"]), traces_validated_against_impl=validated,
            cases=stats["cases"], cases_in_space=len(jobs), executions=stats["executions"], complete_schedules=stats["schedules"],
            distinct_outcomes=len(stats["outcomes"]), executions_rejected_by_every_rank=stats["raised"],
            scheduling_choices_with_alternatives=stats["branch"], exhaustive=bool(
                stats["cases"] == len(jobs) and not stats["capped"] and not stats["skipped"] and not stats["unsupported"]),
            schedule_graphs_capped=stats["capped"], cases_skipped_at_time_limit=stats["skipped"],
            real_mpi_disagreements=mism[:5], outside_the_simulator=sorted(set(stats["unsupported"]))[:5],
            per_family=stats["per_family"], samples=stats["samples"][:6],
            state_meaning="explored families: distinct global states of the schedule graph; enumerated families: states visited "
                          "along the executions of all cases (one more than their MPI operations)",
            known_findings_seen=len(listed)),
        assumptions=list(getattr(prop, "ASSUMPTIONS", [])) + [
            "ranks interact through MPI only; the simulated MPI follows MPI-3.1 (validated against Open MPI on the replayed cases)",
            "bounds: " + getattr(prop, "BOUNDS", "see DESIGN.md")],
        wall_s=round(wall, 2), violations=len(unlisted))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: {stats['cases']}/{len(jobs)} cases, {stats['executions']} executions, {stats['states']} states, "
          f"{stats['transitions']} transitions, {len(stats['outcomes'])} distinct outcomes, {validated} cases repeated on real MPI"
          f" ({len(mism)} disagree), {wall:.1f} s")
    if stats["unsupported"]:
        print("  not modelled:", sorted(set(stats["unsupported"]))[:5])
    if os.environ.get("MC_ALL"):
        for b in unlisted[:int(os.environ["MC_ALL"])]:
            print("   ", b["idx"], b["family"], b["cfg"], "\n        ", b["text"][:500])
        print(f"    {len(unlisted)} bad cases")
    if errors:
        print(errors[0])
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if unlisted:
        b = unlisted[0]
        path = write_replay(pid, b, tier)
        print(f"  {b['family']} {b['cfg']}: {b['text']}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        return 2
    return 0


def confirm_real(pid, b, prop, jobs, tier):
    cfg = ast.literal_eval(b["cfg"])
    fam = next(f for f in prop.FAMILIES if f.name == b["family"])
    js = [j for j in jobs if j[0] == b["idx"]]
    P = fam.size_of(cfg)
    for _ in range(2):
        r = RealRuns(pid, {P: js}).finish(60)
        if b["idx"] not in r or not fam.judge(cfg, _RealOutcome(r[b["idx"]])):
            return False
    return True


def _close(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc":
            t = tol_of(a.dtype)
            return bool(np.allclose(a, b, rtol=t, atol=t, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.generic)) and isinstance(b, (float, complex, int, np.generic)):
        return bool(np.allclose(a, b, rtol=2e-4 if getattr(a, "dtype", None) in (np.float32, np.complex64) else 1e-8, atol=1e-8,
                                equal_nan=True))
    return a == b


def merge(a, b):
    for k, v in b.items():
        if k == "per_family":
            for f, d in v.items():
                t = a[k].setdefault(f, {})
                for x, y in d.items():
                    t[x] = t.get(x, 0) + y
        elif isinstance(v, set):
            a[k] |= v
        elif isinstance(v, (list, int)):
            a[k] = a[k] + v
    return a


def replay(path):
    from . import engine, simmpi

    preload()
    engine.quiet()
    with open(path) as f:
        r = json.load(f)
    prop = load_property(r["property"])
    fam = next(f for f in prop.FAMILIES if f.name == r["family"])
    cfg = ast.literal_eval(r["case"])
    how = r["how"]
    jobs = {i: (fi, c) for i, fi, c in jobs_of(prop, r["tier"])}

    def once(history):
        engine.Universes.drop()
        for i in history:
            fi, c = jobs[i]
            for pol in prop.FAMILIES[fi].policies_for(c, i):
                run_case(prop.FAMILIES[fi], c, pol)
        if how.get("schedule") is not None:
            e, y = how["mode"]
            return engine.execute(lambda env: fam.program(env, cfg), fam.size_of(cfg), engine.Scripted(how["schedule"], e, y))
        if how.get("policy"):
            for pol in fam.policies_for(cfg, r["index"]):
                out = run_case(fam, cfg, pol)
                if pol == how["policy"] or fam.judge(cfg, out):
                    return out
        return run_case(fam, cfg, ASC)

    for history in ([], r["earlier_cases_in_process"]):
        out = once(history)
        t = fam.judge(cfg, out)
        print("case:", r["family"], r["case"], "" if not history else f"(after {len(history)} earlier cases in the same process)")
        for k in range(out.size):
            print(f"  rank {k}: {out.kind[k]} {out.exc[k] or ''} {out.ops[k] or ''}")
            print("     MPI operations:", " ".join(out.calls[k][-40:]))
            if out.tb[k]:
                print(out.tb[k])
        print("verdict:", t or "the property holds on this case")
        if t:
            return 1
    return 0
