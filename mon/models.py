"""Independent reference implementation of tight-binding models + generators of hostile models and k-points."""
import itertools
import numpy as np
import scipy.linalg
import tight_binding_redweasel as tbr
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, Symmetry
from tight_binding_redweasel.tight_binding_asym import HermitianFourierSeries


def herm(a):
    return (a + np.conj(np.swapaxes(a, -1, -2))) / 2


class Ref:
    """H(k) = sum over the *full* list of lattice vectors R of H_R exp(2 pi i k.R)"""

    def __init__(self, Rs, Hs, S_Rs=None, S_Hs=None):
        self.Rs = np.asarray(Rs, float)
        self.Hs = np.asarray(Hs, complex)
        self.S_Rs = None if S_Rs is None else np.asarray(S_Rs, float)
        self.S_Hs = None if S_Hs is None else np.asarray(S_Hs, complex)

    @staticmethod
    def full(neighbors, H_r):
        """expand half-space list (first entry R=0)"""
        neighbors = np.asarray(neighbors, float)
        H_r = np.asarray(H_r, complex)
        Rs = [neighbors[0]] + [s * r for r in neighbors[1:] for s in (1, -1)]
        Hs = [H_r[0]] + [m for h in H_r[1:] for m in (h, h.conj().T)]
        return np.array(Rs), np.array(Hs)

    @staticmethod
    def of(neighbors, H_r, S_neighbors=None, S_r=None):
        Rs, Hs = Ref.full(neighbors, H_r)
        if S_r is None:
            return Ref(Rs, Hs)
        return Ref(Rs, Hs, *Ref.full(S_neighbors, S_r))

    @property
    def n(self):
        return self.Hs.shape[-1]

    def _sum(self, k, Rs, Hs, weights=None):
        ph = np.exp(2j * np.pi * np.tensordot(np.asarray(k, float), Rs.T, axes=1))  # (..., N_R)
        return np.tensordot(ph, Hs, axes=1)

    def H(self, k):
        return self._sum(k, self.Rs, self.Hs)

    def S(self, k):
        if self.S_Rs is None:
            return np.broadcast_to(np.eye(self.n), np.shape(k)[:-1] + (self.n, self.n))
        return self._sum(k, self.S_Rs, self.S_Hs)

    def dH(self, k, Rs=None, Hs=None):
        Rs = self.Rs if Rs is None else Rs
        Hs = self.Hs if Hs is None else Hs
        ph = np.exp(2j * np.pi * np.tensordot(np.asarray(k, float), Rs.T, axes=1))
        return np.einsum("...r,rd,rij->...dij", ph * 2j * np.pi, Rs, Hs)

    def ddH(self, k):
        ph = np.exp(2j * np.pi * np.tensordot(np.asarray(k, float), self.Rs.T, axes=1))
        return np.einsum("...r,rd,re,rij->...deij", ph * (2j * np.pi)**2, self.Rs, self.Rs, self.Hs)

    def bands(self, k):
        H = self.H(k)
        if self.S_Rs is None:
            return np.linalg.eigvalsh(H)
        S = self.S(k)
        flat = H.reshape(-1, self.n, self.n)
        Sf = np.asarray(S).reshape(-1, self.n, self.n)
        out = np.array([scipy.linalg.eigvalsh(h, s) for h, s in zip(flat, Sf)])
        return out.reshape(H.shape[:-1])

    def scale(self):
        return float(np.sum(np.abs(self.Hs))) + 1e-300


def half_space(dim, m, rng=None, count=None, include=None):
    """half space of integer vectors with |.|_inf <= m, the zero vector first"""
    pts = [p for p in itertools.product(range(-m, m + 1), repeat=dim) if p > tuple([0] * dim)]
    if rng is not None:
        idx = rng.permutation(len(pts))
        if count is not None:
            idx = idx[:count]
        pts = [pts[i] if rng.random() < 0.7 else tuple(-x for x in pts[i]) for i in idx]
    return np.array([tuple([0] * dim)] + pts, dtype=float)


def gen_params(rng, n_r, n, kind=None):
    kind = kind if kind is not None else rng.choice(["generic", "generic", "generic", "real", "diag", "sparse", "degenerate", "big", "tiny", "rank1",
                                                       "imag", "mixed", "mixed", "phases"])
    H = rng.standard_normal((n_r, n, n)) + 1j * rng.standard_normal((n_r, n, n))
    if kind == "real":
        H = H.real.astype(complex)
    elif kind == "diag":
        H = H * np.eye(n)
    elif kind == "sparse":
        H = H * (rng.random(H.shape) < 0.4)
    elif kind == "degenerate":
        H = np.einsum("r,ij->rij", rng.standard_normal(n_r) + 1j * rng.standard_normal(n_r), np.eye(n))
    elif kind == "big":
        H = H * 1e4
    elif kind == "tiny":
        H = H * 1e-4
    elif kind == "rank1":
        v = rng.standard_normal((n_r, n)) + 1j * rng.standard_normal((n_r, n))
        H = v[:, :, None] * np.conj(v[:, None, :])
    elif kind == "imag":
        H = 1j * H.imag
        if n_r:
            H[0] = rng.standard_normal((n, n))
    elif kind == "mixed":
        # every matrix has a structure of its own
        for i in range(n_r):
            t = int(rng.integers(10))
            if t == 0:
                H[i] = H[i].real
            elif t == 1:
                H[i] = 1j * H[i].imag
            elif t == 2:
                H[i] = 0
            elif t == 3:
                H[i] = herm(H[i])
            elif t == 4:
                H[i] = H[i] - np.conj(H[i].T)
            elif t == 5:
                H[i] = np.triu(H[i], int(rng.integers(2)))
            elif t == 6:
                a, b = rng.integers(0, n, 2)
                H[i] = 0
                H[i, a, b] = rng.standard_normal() * (1j if rng.random() < 0.5 else 1)
            elif t == 7:
                H[i] *= 10.0**rng.integers(-11, 0)
            elif t == 8:
                H[i] = np.round(H[i])
    elif kind == "phases":
        # entries which are real or imaginary except for a tiny part
        eps = 10.0**rng.uniform(-12, -2, size=H.shape)
        H = np.where(rng.random(H.shape) < 0.5, H.real + 1j * eps * H.imag, eps * H.real + 1j * H.imag) * 10.0**rng.integers(-1, 3)
    H = np.array(H, dtype=complex)
    H[0] = herm(H[0])
    return H, str(kind)


def gen_model(rng, dim=None, n=None, nmax=5, m=None, count=None, kind=None):
    dim = dim or int(rng.integers(1, 4))
    n = n or int(rng.integers(1, nmax + 1))
    m = m or int(rng.integers(1, 3))
    nb = half_space(dim, m, rng, count=count or int(rng.integers(1, 12)))
    H, kind = gen_params(rng, len(nb), n, kind)
    return nb, H, kind


def gen_overlap(rng, nb, n, strength=0.5):
    """overlap series, positive definite for every k (diagonal dominance of the sum of norms)"""
    S = rng.standard_normal((len(nb), n, n)) + 1j * rng.standard_normal((len(nb), n, n))
    S[0] = herm(S[0])
    total = np.linalg.norm(S[0], 2) + 2 * sum(np.linalg.norm(s, 2) for s in S[1:])
    S *= strength / total
    S[0] += np.eye(n)
    return S


def asym(nb, H, S_nb=None, S=None):
    return AsymTightBindingModel(HermitianFourierSeries(np.array(nb), np.array(H)),
                                 None if S is None else HermitianFourierSeries(np.array(S_nb), np.array(S)))


MODES = [(cr, ex) for cr in (False, True) for ex in (False, True)]


def bsm(nb, H, cos_reduced, exp, sym=None):
    dim = len(nb[0])
    m = BandStructureModel.init_tight_binding(sym or none(dim), np.array(nb), H.shape[-1], cos_reduced=cos_reduced, exp=exp)
    m.set_params_complex(np.array(H))
    return m


def none(dim):
    return Symmetry.none(dim)


def gen_k(rng, dim, n=None):
    n = n or int(rng.integers(1, 9))
    k = rng.random((n, dim)) * 2 - 1
    pick = rng.random((n, dim))
    k = np.where(pick < 0.12, 0.0, k)
    k = np.where((pick >= 0.12) & (pick < 0.24), 0.5, k)
    k = np.where((pick >= 0.24) & (pick < 0.3), 0.25, k)
    if rng.random() < 0.15:
        k[0] = 0.0
    if rng.random() < 0.2:
        k = k + rng.integers(-3, 4, size=(n, dim))
    return k
