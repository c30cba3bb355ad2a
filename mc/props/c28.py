"""Everything works on a sub-communicator as it does on a world of that size."""
from .cat import *

BOUNDS = ("2-4 ranks (thorough 5), every way to put the ranks into groups or leave them idle, group ranks in world order, reversed or rotated, communicators "
          "from Split, Split of Split, Dup, COMM_SELF or the world itself; every work of a catalogue of the whole interface, other groups doing other "
          "works at the same time; all schedules of two concurrent groups for the small works; each work in some grouping of 5-8 ranks")


def groupings(P):
    """canonical colours per rank, None: idle"""
    def rec(done):
        if len(done) == P:
            yield tuple(done)
            return
        top = max([c for c in done if c is not None], default=-1)
        for c in [None] + list(range(top + 2)):
            yield from rec(done + [c])

    return [g for g in rec([]) if any(c is not None for c in g)]


def members(cfg, colour):
    """world ranks of the group, in group order"""
    rs = [r for r in range(cfg["P"]) if cfg["groups"][r] == colour]
    return sorted(rs, key=lambda r: (key_of(cfg, r), r))


def key_of(cfg, r):
    return {"up": 0, "down": -r, "rot": (r + 2) % cfg["P"]}[cfg["order"]]


_ref = {}


def reference(name, P):
    """what the work gives on a world of that size"""
    if (name, P) not in _ref:
        from .. import engine
        out = engine.execute(lambda env: run(name, env), P)
        _ref[name, P] = (out.trouble() or (out.first_exc() if out.raised() else None), out.value)
    t, v = _ref[name, P]
    if t:
        raise Bad(f"{name} on a world of {P} ranks: {t}")
    return v


def alike(a, b, what):
    if isinstance(b, dict):
        need(isinstance(a, dict) and a.keys() == b.keys(), f"{what}: {type(a).__name__} instead of an array")
        for k in b:
            alike(a[k], b[k], f"{what}[{k}]" if k != "on" else f"{what}: lives on the given communicator")
    elif isinstance(b, (list, tuple)):
        need(isinstance(a, (list, tuple)) and len(a) == len(b), f"{what}: {len(a) if isinstance(a, (list, tuple)) else a} instead of {len(b)} results")
        for j, (x, y) in enumerate(zip(a, b)):
            alike(x, y, f"{what}.{j}")
    elif isinstance(b, np.ndarray):
        same(a, b, what, dtype=b.dtype)
    elif isinstance(b, (float, complex, np.generic)) and not isinstance(b, bool):
        same(a, b, what)
    else:
        need(a == b, f"{what} is {a!r}, should be {b!r}")


class Groups(Family):
    name = "groups of ranks"
    policies = (ASC, DESC)

    def policies_for(self, cfg, idx):
        return (self.policies[idx % 2],)

    def configs(self, tier):
        out, i = [], 0
        names = list(WORKS)
        for P in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            gs = groupings(P)
            for w in names:
                for gi, g in enumerate(gs):
                    for o in ("up", "down", "rot"):
                        i += 1
                        big = max(sum(1 for c in g if c == d) for d in set(g) - {None})
                        if big == 1 and o != "up" or P == 5 and i % 9:
                            continue
                        if tier == "quick" and P == 4 and (i * 7 + i // 13) % 9:
                            continue
                        if tier == "quick" and P == 3 and (i * 5 + i // 11) % 2:
                            continue
                        how = ("split", "nested", "dup")[i // 3 % 3]
                        if big == 1 and i % 2:
                            how = "self"
                        if g == (0,) * P and o == "up":
                            how = ("world", "dup", "split")[i // 2 % 3]
                        out.append(dict(P=P, work=w, groups=g, order=o, how=how, others=("same", "shifted")[i // 2 % 2]))
        # more ranks
        for j, w in enumerate(names):
            for P, g in ((6, (0, 1, 1, 0, 0, 1)), (6, (1, 0, 0, None, 0, 0)), (8, (0, 0, 1, 0, 1, 0, None, 0)), (5, (0,) * 5), (6, (0, 1, 2, 0, 1, 2))):
                i += 1
                if tier == "quick" and (j + i) % 5:
                    continue
                out.append(dict(P=P, work=w, groups=g, order=("up", "down", "rot")[i % 3], how=("split", "nested", "dup")[i // 3 % 3], others=("same", "shifted")[i // 2 % 2]))
        return out

    def work(self, cfg, colour):
        names = list(WORKS)
        j = names.index(cfg["work"])
        return names[(j + 5 * colour) % len(names)] if cfg["others"] == "shifted" else cfg["work"]

    def comm(self, env, cfg):
        """(before the group's work) the communicator, or None for an idle rank"""
        MPI, me = env.MPI, env.rank
        c, key = cfg["groups"][me], key_of(cfg, me)
        u = MPI.UNDEFINED if c is None else c
        if cfg["how"] == "world":
            return env.world
        if cfg["how"] == "self":
            return None if c is None else MPI.COMM_SELF
        if cfg["how"] == "nested":
            first = env.world.Split(0 if c is None else 1, 0)
            return None if c is None else first.Split(c, key)
        got = env.world.Split(u, key)
        if c is None:
            return None
        return got.Dup() if cfg["how"] == "dup" else got

    def program(self, env, cfg):
        comm = self.comm(env, cfg)
        if comm is None:
            return "idle"
        return run(self.work(cfg, cfg["groups"][env.rank]), env, comm)

    def oracle(self, cfg, obs):
        for c in sorted(set(cfg["groups"]) - {None}):
            g = members(cfg, c)
            w = self.work(cfg, c)
            want = reference(w, len(g))
            for j, r in enumerate(g):
                alike(obs[r], want[j], f"{w} on rank {j} of group {g} (world rank {r})")


class Explored(Groups):
    name = "all schedules of concurrent groups"
    explore = True
    explore_modes = ((True, True),)
    real = False

    def configs(self, tier):
        out = []
        for w in ("construct", "writes", "dots", "norms", "masked", "ghosts", "ravels", "opA", "opV", "opH", "fredholm", "fd_forward", "sd_forward", "dottests")[:8 if tier == "quick" else None]:
            for P, g in ((3, (0, None, 0)), (3, (0, 1, 0)), (4, (0, 1, 1, 0)), (4, (0, 1, 0, 1))):
                out.append(dict(P=P, work=w, groups=g, order="down" if P == 3 else "up", how="split", others="same", max_states=30000 if tier == "quick" else 400000))
        return out


FAMILIES = [Groups(), Explored()]
