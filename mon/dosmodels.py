"""Band models driven through DensityOfStates, KIntegral and the Fermi-surface functions."""
import numpy as np
from . import models


class K:
    """a model in cartesian k built from a crystal-coordinate model with bands_grad(_hess); k_crystal = k @ A"""

    def __init__(self, m, A):
        self.m, self.A = m, np.asarray(A, float)

    def __call__(self, k):
        return self.m(np.asarray(k) @ self.A)

    def bands_grad(self, k):
        b, g = self.m.bands_grad(np.asarray(k) @ self.A)
        return b, np.einsum("ij,njb->nib", self.A, g)

    def bands_grad_hess(self, k):
        b, g, h = self.m.bands_grad_hess(np.asarray(k) @ self.A)
        return b, np.einsum("ij,njb->nib", self.A, g), np.einsum("ij,njkb,lk->nilb", self.A, h, self.A)


class Plain:
    """only callable"""

    def __init__(self, m):
        self.m = m

    def __call__(self, k):
        return self.m(k)


class Affine:
    def __init__(self, m, s, t):
        self.m, self.s, self.t = m, s, t

    def __call__(self, k):
        b = self.m(k) * self.s + self.t
        return b if self.s > 0 else b[..., ::-1]


class Cosines:
    """independent bands e_n(k) = c_n + sum_j a_nj cos(2 pi R_j.k + phi), not crossing if the offsets are far apart; own derivatives"""

    def __init__(self, rng, n=None, gap=None, even=False, m=1, terms=3):
        n = n or int(rng.integers(1, 4))
        self.R = []
        self.a = []
        self.p = []
        self.c = []
        off = 0.0
        for i in range(n):
            R = rng.integers(-m, m + 1, size=(terms, 3))
            R = np.concatenate([np.eye(3, dtype=int), R])
            a = rng.uniform(0.2, 1.0, len(R)) * rng.choice([-1, 1], len(R)) * np.where(np.arange(len(R)) < 3, 1, .4)
            if even:
                R, a = R[:3], a[:3]
            self.R.append(R)
            self.a.append(a)
            self.p.append(np.zeros(len(R)) if even else rng.uniform(0, 2 * np.pi, len(R)))
            w = np.sum(np.abs(a))
            self.c.append(off + w)
            off += 2 * w + (gap if gap is not None else rng.uniform(-2.0, 1.0))
        self.n = n

    def _raw(self, k):
        k = np.asarray(k, float)
        E, G, H = [], [], []
        for R, a, p, c in zip(self.R, self.a, self.p, self.c):
            ph = 2 * np.pi * (k @ R.T) + p
            E.append(c + np.cos(ph) @ a)
            G.append(-2 * np.pi * (np.sin(ph) * a) @ R)
            H.append(-4 * np.pi**2 * np.einsum("...r,ri,rj->...ij", np.cos(ph) * a, R, R))
        return np.stack(E, -1), np.stack(G, -1), np.stack(H, -1)

    def __call__(self, k):
        return np.sort(self._raw(k)[0], axis=-1)

    def bands_grad(self, k):
        e, g, _ = self._raw(k)
        o = np.argsort(e, axis=-1)
        return np.take_along_axis(e, o, -1), np.take_along_axis(g, o[:, None], -1)

    def bands_grad_hess(self, k):
        e, g, h = self._raw(k)
        o = np.argsort(e, axis=-1)
        return np.take_along_axis(e, o, -1), np.take_along_axis(g, o[:, None], -1), np.take_along_axis(h, o[:, None, None], -1)


def lattice(rng, kind=None):
    kind = kind or rng.choice(["unit", "ortho", "tri", "fcc", "left"])
    if kind == "unit":
        return np.eye(3)
    if kind == "ortho":
        return np.diag(rng.uniform(1, 5, 3))
    if kind == "fcc":
        return np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) * rng.uniform(1, 3) / 2
    A = rng.uniform(-.6, .6, size=(3, 3)) + rng.uniform(1, 3) * np.eye(3)
    if kind == "left":
        A = A[:, [1, 0, 2]]
    return A


def any_model(rng, nmax=4):
    """-> crystal-coordinate model with derivatives (a real BandStructureModel or independent cosine bands)"""
    if rng.random() < 0.5:
        nb, H, kind = models.gen_model(rng, dim=3, nmax=nmax, m=1, kind=rng.choice(["generic", "generic", "real", "diag", "sparse", "degenerate"]), count=int(rng.integers(3, 10)))
        return models.bsm(nb, H, False, True)
    return Cosines(rng, n=int(rng.integers(1, nmax + 1)))


def grid(N, ranges=((-.5, .5),) * 3, wrap=True, midpoint=False):
    """crystal grid as documented"""
    ax = []
    for a, b in ranges:
        n = N if (wrap or midpoint) else N + 1
        x = a + (b - a) * (np.arange(n) + (0.5 if midpoint else 0.0)) / N
        ax.append(x)
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1)
