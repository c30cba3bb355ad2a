"""MPIMDC equals multi-dimensional convolution of serial PyLops with the frequency slices of all ranks concatenated."""
import pylops
import pylops.waveeqprocessing

from .linop import *
from .c23 import slices

BOUNDS = "1-4 ranks, 0 or 2-4 frequencies per rank in every combination, all nt that fit, ns, nr, nv in 1-3, two-sided or not, conj, prescaled, saveGt, usematmul, two FFT engines, dt and dr, the second operator built from one kernel, which stays unchanged; whole real matrix, forward and adjoint; some on 5-6 ranks and of up to 21 frequencies; scaled vectors"


def kernel(nsl, ns, nr, dtype):
    return data((sum(nsl), ns, nr), dtype, 4)


@frozen
def serial(nsl, ns, nr, nt, nv, dt, dr, twosided, engine, conj, prescaled, dtype):
    G = kernel(nsl, ns, nr, dtype)
    nf = sum(nsl)
    nfft = int(np.ceil((nt + 1) / 2))
    sc = 1. if prescaled else dr * dt * np.sqrt(nt)

    def F(x, shift):  # orthonormal real FFT along time (what pylops.FFT does: sqrt(2) on the frequencies that stand for two)
        if shift:
            x = np.fft.ifftshift(x, axes=0)
        y = np.fft.rfft(x, axis=0, norm="ortho")
        y[1:1 + (nt - 1) // 2] *= np.sqrt(2)
        return y

    def FH(y, shift):
        y = y.copy()
        y[1:1 + (nt - 1) // 2] /= np.sqrt(2)
        x = np.fft.irfft(y, n=nt, axis=0, norm="ortho")
        return np.fft.fftshift(x, axes=0) if shift else x

    K = sc * (G.conj() if conj else G)

    def fwd(x):
        y = np.zeros((nfft, ns, nv), dtype=complex)
        y[:nf] = np.matmul(K, F(x.reshape(nt, nr, nv), twosided)[:nf])
        return FH(y, False).ravel()

    def adj(y):
        x = np.zeros((nfft, nr, nv), dtype=complex)
        x[:nf] = np.matmul(K.conj().transpose(0, 2, 1), F(y.reshape(nt, ns, nv), False)[:nf])
        return FH(x, twosided).ravel()

    f = np.stack([fwd(e) for e in np.eye(nt * nr * nv)], axis=1)
    a = np.stack([adj(e) for e in np.eye(nt * ns * nv)], axis=1)
    if ns > 1 and nr > 1:  # and this is what serial PyLops does
        op = pylops.waveeqprocessing.MDC(G, nt, nv, dt=dt, dr=dr, twosided=twosided, fftengine=engine, conj=conj, prescaled=prescaled)
        for A, g in ((f, op.matvec), (a, op.rmatvec)):
            for v in (data((A.shape[1],), F8, 3), data((A.shape[1],), F8, 8)):
                w = np.real(g(v.astype(op.dtype)))
                assert np.allclose(A @ v, w, rtol=1e-3, atol=1e-3 * max(1, np.abs(w).max())), "the oracle is not serial PyLops"
    return f, a


class Mdc(LinOp):
    name = "multi-dimensional convolution"
    vec_most = 14
    vec_others = False

    def configs(self, tier):
        out = []
        k = 0
        for P in (1, 2, 3, 4):
            for nsl in slices(P, 4 if tier == "quick" else 5):
                nf = sum(nsl)
                if nf < 2:
                    continue
                for nt in range(2 * nf - 3, 2 * nf + 4):
                    if nt < 1 or nf > int(np.ceil((nt + 1) / 2)):
                        continue
                    for ns, nr, nv in ((2, 3, 2), (3, 2, 1), (1, 2, 2), (2, 1, 3), (1, 1, 1), (2, 2, 1)):
                        for twosided in (False, True):
                            if twosided and nt % 2 == 0:
                                continue
                            for conj in (False, True):
                                for mode in self.modes:
                                    k += 1
                                    for s in range(1 if tier == "quick" else 4):
                                        j = k // 2 + s
                                        out.append(dict(P=P, nsl=nsl, nt=nt, ns=ns, nr=nr, nv=nv, twosided=twosided, conj=conj, mode=mode, prescaled=j % 3 == 0, saveGt=bool(j // 2 % 2), mm=bool(j % 2),
                                                        engine=("numpy", "scipy")[j // 3 % 2], dt=(1., 0.5, 0.004)[j % 5 % 3], dr=(1., 2., 0.5)[j // 2 % 3], dtype=(C16, C16, C8)[j // 2 % 3], part=PARTS[1 + (j // 5) % 2]))
        if tier == "quick":
            out = [c for i, c in enumerate(out) if (i // 2) % 4 == 0 or c["P"] < 2]
        # more ranks, more frequencies
        for P, nsl in ((5, (2, 3, 2, 2, 2)), (6, (2, 2, 3, 2, 2, 2)), (6, (0, 2, 3, 0, 2, 2)), (2, (9, 12)), (3, (2, 15, 3))):
            nf = sum(nsl)
            for nt in (2 * nf - 1, 2 * nf, 2 * nf + 9):
                for ns, nr, nv in ((2, 3, 2), (3, 1, 1), (4, 5, 1)):
                    for twosided in (False, True) if nt % 2 else (False,):
                        for mode in self.modes:
                            k += 1
                            j = k // 2
                            out.append(dict(P=P, nsl=nsl, nt=nt, ns=ns, nr=nr, nv=nv, twosided=twosided, conj=bool(j // 4 % 2), mode=mode, prescaled=j % 3 == 0, saveGt=bool(j // 2 % 2), mm=bool(j % 2),
                                            engine=("numpy", "scipy")[j // 3 % 2], dt=(1., 0.5, 0.004)[j % 5 % 3], dr=(1., 2., 0.5)[j // 2 % 3], dtype=(C16, C16, C8)[j // 2 % 3], part=PARTS[1 + (j // 5) % 2]))
        return out

    def program(self, env, cfg):
        """the operator is the second one built from the same kernel, which has to stay as it was"""
        o = offsets(cfg["nsl"])
        G = kernel(cfg["nsl"], cfg["ns"], cfg["nr"], cfg["dtype"])[o[env.rank]:o[env.rank + 1]]
        was = G.copy()
        self.make(env, cfg, G)
        return dict(super().program(env, dict(cfg, G=G)), kept=G.tobytes() == was.tobytes())

    def build(self, env, cfg):
        return self.make(env, cfg, cfg["G"])

    def make(self, env, cfg, G):
        return env.MPIMDC(G, nt=cfg["nt"], nv=cfg["nv"], nfreq=sum(cfg["nsl"]), dt=cfg["dt"], dr=cfg["dr"], twosided=cfg["twosided"], fftengine=cfg["engine"], saveGt=cfg["saveGt"], conj=cfg["conj"],
                          usematmul=cfg["mm"], prescaled=cfg["prescaled"])

    def dt(self, cfg):
        return F4 if cfg["dtype"] == C8 else F8

    def inp(self, env, cfg, op, vec, fwd):
        return dist(env, vec, partition=cfg["part"])

    def both(self, cfg):
        return serial(*(cfg[k] for k in ("nsl", "ns", "nr", "nt", "nv", "dt", "dr", "twosided", "engine", "conj", "prescaled", "dtype")))

    def oracle(self, cfg, obs):
        f, a = self.both(cfg)
        fwd = cfg["mode"] == "fwd"
        for r, o in enumerate(obs):
            need(o["shape"] == f.shape, f"operator shape {o['shape']} on rank {r}, should be {f.shape}")
            need(o["kept"], f"the kernel of rank {r} was changed")
            need(o["dtype"] == self.dt(cfg), f"operator dtype {o['dtype']} on rank {r}")
        B = f if fwd else a
        for k, v in enumerate(vectors(B.shape[1], self.dt(cfg), self.vec_most, self.vec_others)):
            f = size_factor(v)
            check_global([resized(o["res"][k], f) for o in obs], B @ (v / f), f"{'forward' if fwd else 'adjoint'} of vector {k}", partition=cfg["part"] if False else obs[0]["res"][k]["part"], tol=tol_of(self.dt(cfg)))
            need(obs[0]["res"][k]["part"] in PARTS[1:], "result is not broadcast")


class Even(Family):
    """An even number of samples for a two-sided axis is rejected."""

    name = "even two-sided"

    def configs(self, tier):
        return [dict(P=P, nt=nt) for P in (1, 2, 3) for nt in (2, 4, 6, 8)]

    def program(self, env, cfg):
        env.MPIMDC(data((2, 2, 3), C16), nt=cfg["nt"], nv=1, nfreq=2 * cfg["P"], twosided=True)

    def oracle(self, cfg, obs):
        raise Bad("accepted")

    def on_raise(self, cfg, out):
        for r, e in enumerate(out.exc):
            need(e[0] == "ValueError", f"rank {r} raised {e}")


FAMILIES = [Mdc(), Even()]
