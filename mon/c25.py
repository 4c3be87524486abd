"""C25: reference models reproduce free electrons."""
import warnings
import numpy as np
from .core import workload, Skip
from .dosmodels import lattice
from tight_binding_redweasel.bulk_properties import FreeElectrons
from tight_binding_redweasel.density_of_states import DensityOfStates
from tight_binding_redweasel.tight_binding_asym import free_electron_model_orthogonal
from tight_binding_redweasel.linalg import lattice_in_sphere
warnings.simplefilter("ignore")

# hbar^2/(2 m_e) (2 pi/Angstrom)^2 in eV from the SI constants
FAC = (6.62607015e-34)**2 / (2 * 9.1093837139e-31) * 1e20 / 1.602176634e-19


@workload("C25", quick=400, thorough=6000)
def parabolas(c, rng):
    B = np.linalg.inv(lattice(rng)).T
    n = int(rng.integers(1, 4))
    G = np.stack(np.meshgrid(*[np.arange(-1, 2)] * 3), -1).reshape(-1, 3) @ B.T
    G = G[rng.permutation(len(G))[:int(rng.integers(1, 28))]]
    lim = None if rng.random() < .4 else int(rng.integers(1, len(G) + 1))
    arg = [G, G.tolist(), tuple(map(tuple, G))][n - 1]
    f = FreeElectrons(arg, lim)
    default = rng.random() < .1
    if default:
        f, G, lim = FreeElectrons(limit_count=lim), np.zeros((1, 3)), lim
        lim = min(lim or 1, 1)
    k = rng.normal(size=(int(rng.integers(1, 12)), 3)) @ B.T * .6
    c.key(G, k, lim)
    c.event(f"limit {'none' if lim is None else 'set'}")
    m = len(G) if lim is None else lim
    d = k[:, None] - G[None]
    e = FAC * np.sum(d**2, -1)
    o = np.argsort(e, axis=-1, kind="stable")[:, :m]
    e = np.take_along_axis(e, o, 1)
    kk = k.tolist() if rng.random() < .3 else k
    k0 = k.copy()
    b = f(kk)
    c.close(b, e, "folded-parabolas", rtol=1e-6)
    b1, g1 = f.bands_grad(kk)
    b2, g2, h2 = f.bands_grad_hess(kk)
    c.close(b1, b, "energies-agree", rtol=1e-12)
    c.close(b2, b, "energies-agree", rtol=1e-12)
    c.ok(np.all(np.diff(b, axis=-1) >= -1e-9 * (1 + np.abs(b).max())), "bands-ascending")
    grad = 2 * FAC * np.swapaxes(np.take_along_axis(d, o[..., None], 1), 1, 2)
    sep = np.ones(b.shape, bool)
    ea = np.sort(FAC * np.sum(d**2, -1), -1)
    for i in range(m):
        if i > 0:
            sep[:, i] &= ea[:, i] - ea[:, i - 1] > 1e-6
        if i + 1 < len(G):
            sep[:, i] &= ea[:, i + 1] - ea[:, i] > 1e-6
    c.ok(g1.shape == (len(k), 3, m) and h2.shape == (len(k), 3, 3, m), "derivative-shapes")
    s3 = np.broadcast_to(sep[:, None], g1.shape)
    c.close(g1[s3], grad[s3], "gradient", rtol=1e-6)
    c.close(g2[s3], grad[s3], "gradient", rtol=1e-6)
    c.close(np.linalg.norm(g1, axis=1)**2, 4 * FAC * b, "kinetic-relation", rtol=1e-9)
    c.close(h2, np.broadcast_to(2 * FAC * np.eye(3)[None, :, :, None], h2.shape), "hessian", rtol=1e-6)
    c.ok(np.array_equal(k, k0), "arguments-untouched")
    c.note(points=len(k), G=len(G), bands=b[0])


@workload("C25", quick=30, thorough=300)
def periodic(c, rng):
    """with all reciprocal vectors in reach the lowest bands are periodic and give the Sommerfeld level"""
    A = lattice(rng)
    A = A / abs(np.linalg.det(A))**(1 / 3) * rng.uniform(1.5, 4)
    B = np.linalg.inv(A).T
    s = np.linalg.svd(A)[1]
    if s[0] / s[-1] > 4:
        raise Skip()
    R = 1.6 * np.sum(np.linalg.norm(B, axis=0)) / 2 + .62 / abs(np.linalg.det(A))**(1 / 3) * 2
    G = lattice_in_sphere(B, R)
    f = FreeElectrons(G, 4)
    c.key(A)
    k = rng.uniform(-.5, .5, (20, 3)) @ B.T
    v = B @ rng.integers(-1, 2, 3)
    r = 1.0 * np.max(np.linalg.norm(k, axis=1))
    big = FreeElectrons(lattice_in_sphere(B, R + np.linalg.norm(v)), 4)
    c.close(big(k + v), f(k), "periodic", rtol=1e-9)
    # electrons per cell n (one per state): level FAC (3 n / (4 pi V))^(2/3) below the first touching of the zone boundary or not: exact in both cases
    n = float(rng.uniform(.2, 1.8))
    V = abs(np.linalg.det(A))
    d = DensityOfStates(FreeElectrons(G, 6), N=20, A=A, check=False)
    ef = FAC * (3 * n / (4 * np.pi * V))**(2 / 3)
    c.close(d.fermi_energy(n), ef, "sommerfeld-level", rtol=.04)
    c.close(d.density(ef), 1.5 * n / ef, "sommerfeld-density", rtol=.25)


@workload("C25", quick=40, thorough=300)
def orthogonal(c, rng):
    a = np.exp(rng.uniform(-.7, .9, 3)) if rng.random() < .7 else np.ones(3) * rng.uniform(.5, 4)
    nc = int(rng.integers(2, 14))
    bp = int(rng.integers(1, 4))
    c.key(a, nc, bp)
    c.event(f"{bp} bands per direction")
    m, unit = free_electron_model_orthogonal(*[float(x) for x in a], nc, bp)
    c.close(unit, FAC, "energy-unit", rtol=1e-6)
    k = rng.uniform(-1, 1, (10, 3)) / a
    E = np.asarray(m(k))
    c.ok(E.shape == (10, bp**3), "band-count", f"{E.shape}")
    nb = np.asarray(m.H.neighbors, float)
    cell = nb / a
    c.close(cell, np.round(cell), "terms-on-lattice", rtol=0, atol=1e-6)
    cell = np.round(cell).astype(int)
    c.ok(np.all(np.sum(cell != 0, 1) <= 1), "terms-along-axes")
    c.ok(len(nb) == 3 * nc + 1, "term-count", f"{len(nb)} of {3 * nc + 1}")
    # the kept terms are the shortest: bound the tail of the Fourier series of k^2 (Weyl's inequality)
    tol = 0.0
    for i in range(3):
        kept = set(np.abs(cell[np.abs(cell[:, i]) > 0, i]))
        first = next(x for x in range(1, 10**6) if x not in kept)
        if np.ptp(a) == 0:
            c.ok(first == nc + 1, "terms-per-direction", f"{first}")
        if first < 2:
            raise Skip()
        tol += bp / a[i]**2 / np.pi**2 / (first - 1)
    # the lowest bands of each direction
    G = np.arange(-5, 6)
    per = [np.sort((k[:, i, None] - G / a[i])**2, 1)[:, :bp] for i in range(3)]
    ref = (per[0][:, :, None, None] + per[1][:, None, :, None] + per[2][:, None, None, :]).reshape(10, -1)
    ref = np.sort(ref, 1)
    c.close(E, ref, "folded-parabola-bands", rtol=0, atol=tol * (1 + 1e-6) + 1e-9)
    # on average it is far closer than the worst case at the zone boundary
    c.ok(np.median(np.abs(E - ref)) < .35 * tol, "typical-accuracy", f"{np.median(np.abs(E-ref))} vs bound {tol}")
    # exact symmetries of the reference
    c.close(np.asarray(m(-k)), E, "inversion", rtol=1e-7, atol=1e-9)
    s = np.array(rng.choice([-1, 1], 3))
    c.close(np.asarray(m(k * s)), E, "mirrors", rtol=1e-7, atol=1e-8 * (1 + np.abs(E).max()))
    c.close(np.asarray(m(k + rng.integers(-2, 3, 3) / a)), E, "periodic-model", rtol=1e-7, atol=1e-8 * (1 + np.abs(E).max()))
    if nc >= 4 and np.ptp(a) == 0:
        m2, _ = free_electron_model_orthogonal(*a, 3 * nc, bp)
        c.ok(np.mean(np.abs(np.asarray(m2(k)) - ref)) < np.mean(np.abs(E - ref)), "more-terms-better")
    c.note(a=a, nc=nc, bp=bp, error=np.abs(E - ref).max(), bound=tol)
