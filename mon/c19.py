"""C19: transport integrals have the right values, symmetry and units."""
import warnings
import numpy as np
from .core import workload, Skip
from .dosmodels import Plain, K, Cosines, any_model, lattice
from .thermal import filling, jump, Own, k_B
from .c18 import scattered
from tight_binding_redweasel.density_of_states import DensityOfStates
from tight_binding_redweasel import bulk_properties as bp
from tight_binding_redweasel.bulk_properties import KIntegral
warnings.simplefilter("ignore")

E0 = 1.602176634e-19   # C
HBAR = 1.054571817e-34  # J s
ME = 9.1093837e-31     # kg


class Scaled:
    """energies times s (also the derivatives)"""

    def __init__(self, m, s):
        self.m, self.s = m, s

    def __call__(self, k):
        return self.m(k) * self.s

    def bands_grad(self, k):
        b, g = self.m.bands_grad(k)
        return b * self.s, g * self.s

    def bands_grad_hess(self, k):
        b, g, h = self.m.bands_grad_hess(k)
        return b * self.s, g * self.s, h * self.s


def gen(rng, N=16, smooth=False, sm=None, hess=True):
    m = Cosines(rng, n=int(rng.integers(1, 4)), gap=float(rng.choice([.3, -1.0]))) if smooth or rng.random() < .6 else any_model(rng, 3)
    A = lattice(rng)
    d = DensityOfStates(K(m, A), N=N, A=A, smearing=sm or str(rng.choice(["cubes", "cubes+"])), check=1e-6)
    nb = d.model_bandcount()
    e0, e1 = d.energy_range()
    w = e1 - e0
    if w < 1e-6 or any(b - a < 2e-2 * w for a, b in d.bands_range):
        raise Skip()
    el = filling(rng, nb)
    if d.bandgap(el) > 0 or jump(d, el, w):
        raise Skip()
    try:
        ef = d.fermi_energy(el)
    except ValueError:
        raise Skip()  # the documented failure of the search (C16 watches when it happens)
    if d.density(ef) * w < .15 * nb:
        raise Skip()  # (nearly) no Fermi surface
    return m, A, d, el, w


def dense(m, A, mu, T, n=40, hess=False, tau=None):
    """L^(0..2) per definition by a plain sum over k (SI units), optionally the Hall tensor; tau(crystal k)"""
    k = scattered(n)
    if hess:
        b, g, h = m.bands_grad_hess(k)
    else:
        b, g = m.bands_grad(k)
    u = 1e-10 / HBAR / (2 * np.pi)
    v = np.einsum("ij,njb->nib", A, g) * u * E0
    x = (b - mu) / (k_B * T)
    wt = 1 / (4 * np.cosh(np.clip(x / 2, -300, 300))**2) / (k_B * T) / len(k)
    t = np.ones(len(k)) if tau is None else tau(k)
    V = abs(np.linalg.det(A)) * 1e-30
    L = np.array([2 * E0**(2 - a) * np.einsum("n,nib,njb,nb->ij", t, v, v, wt * (b - mu)**a) / E0**(1 - a) / V for a in range(3)])
    if not hess:
        return L
    M = np.einsum("ia,nabt,jb->nijt", A, h, A) * u**2 * E0
    eps = np.zeros((3, 3, 3))
    for i, j, l in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        eps[i, j, l], eps[i, l, j] = 1, -1
    S3 = 2 * E0**3 / E0 / V * np.einsum("n,nib,njab,kac,ncb,nb->ijk", t**2, v, M, eps, v, wt)
    return L, S3


def spread(m, A, el, T, L0, sm, **kw):
    """own error estimate of the grid: the same quantity on coarser grids"""
    e = np.zeros(3)
    for N in (12, 16):
        try:
            d = DensityOfStates(K(m, A), N=N, A=A, smearing=sm, check=False)
            L = KI(d, el, [T]).transport_coefficients(A, **kw)[:, 0]
            e += 2 * np.linalg.norm((L - L0) / (k_B * T)**np.arange(3)[:, None, None], axis=(1, 2))
        except (ValueError, NotImplementedError):
            raise Skip()
    return e


def KI(*args, **kw):
    """the integral; the library warns about quadratures that came out unstable"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        I = KIntegral(*args, **kw)
    I.warned_unstable = any("negative weights" in str(x.message) or "unstable" in str(x.message) for x in seen)
    return I


def full(I, c=None, d=None):
    """did the quadrature keep (nearly) all of its weight? (surfaces outside of the energy range are dropped)"""
    if c is not None and not I.warned_unstable:
        e0, e1 = d.energy_range()
        for mu, beta, w in zip(I.mu, I.beta, I.integration_weights):
            if e0 + 30 / beta < mu < e1 - 30 / beta and np.min(w) > -1e-3:
                # nothing to drop but negligible weights
                c.ok(abs(np.sum(w) - 1) < 2e-2, "quadrature-weights-sum-to-one", f"{np.sum(w)}")
    return np.all(np.abs(np.sum(I.integration_weights, axis=1) - 1) < 2e-3)


@workload("C19", quick=60, thorough=400)
def definition(c, rng):
    smooth = rng.random() < .6
    m, A, d, el, w = gen(rng, smooth=smooth, N=20)
    T = w * np.exp(rng.uniform(np.log(5e-3), np.log(3e-2))) / k_B
    tau = None
    kw = {}
    if rng.random() < .4:
        c.event("k-dependent relaxation time")
        kw["tau"] = lambda k: 1e-14 * (1.5 + np.cos(k @ A[:, 0]))
        tau = lambda k: 1e-14 * (1.5 + np.cos(2 * np.pi * k[:, 0]))
    I = KI(d, el, [T])
    if not full(I, c, d):
        raise Skip()
    c.key(d.bands, T, el)
    L = I.transport_coefficients(A, **kw)
    c.ok(L.shape == (3, 1, 3, 3), "coefficient-shape", f"{L.shape}")
    o = dense(m, A, I.mu[0], T, tau=tau)
    n0 = np.linalg.norm(o[0])
    kT = k_B * T
    tol = .2 if smooth else .3
    e = spread(m, A, el, T, L[:, 0], "cubes+", **kw) / n0
    c.close(L[0, 0], o[0], "conductivity-is-velocity-average", rtol=0, atol=(tol + e[0]) * n0)
    c.close(L[1, 0] / kT, o[1] / kT, "thermoelectric-coefficient-is-average", rtol=0, atol=(e[0] + e[1]) * n0 + tol * (n0 + np.linalg.norm(o[1]) / kT))
    c.close(L[2, 0] / kT**2, o[2] / kT**2, "thermal-coefficient-is-average", rtol=0, atol=(e[0] + e[2]) * n0 + tol * (2 * n0 + np.linalg.norm(o[2]) / kT**2))
    # derived coefficients
    c.close(bp.conductivity(L[:, 0]), L[0, 0], "conductivity", rtol=1e-12)
    if np.linalg.cond(L[0, 0]) > 1e5:
        return
    P = bp.peltier(L[:, 0])
    c.close(P @ L[0, 0], L[1, 0], "peltier-relation", rtol=1e-9)
    S = bp.seebeck(L[:, 0], T)
    c.close(L[0, 0] @ S * T, L[1, 0], "seebeck-relation", rtol=1e-9)
    c.close(P.T, S * T, "kelvin-relation", rtol=1e-7, atol=1e-7 * kT)
    kap = bp.electronic_thermal_conductivity(L[:, 0], T)
    c.close(kap * T + L[1, 0] @ S * T, L[2, 0], "thermal-conductivity-relation", rtol=1e-9)
    c.note(T=T, el=el, L0=L[0, 0], expected=o[0])


@workload("C19", quick=50, thorough=300)
def zero_and_warm(c, rng):
    """temperature lists in which zero stands at any place: its entry is the integral over the Fermi surface, the others do not depend on the order"""
    m, A, d, el, w = gen(rng, N=10)
    warm = w * np.exp(rng.uniform(np.log(5e-3), np.log(3e-2), int(rng.integers(1, 3)))) / k_B
    Ts = np.concatenate([[0.0], np.sort(warm)])
    c.key(d.bands, el, Ts)
    cold = KI(d, el, [0.0]).transport_coefficients(A)[:, 0]
    n0 = np.linalg.norm(cold[0])
    I = KI(d, el, list(Ts))
    L = I.transport_coefficients(A)
    c.ok(L.shape == (3, len(Ts), 3, 3) and np.all(np.isfinite(L)), "coefficient-shape")
    c.close(I.mu[0], np.asarray(d.fermi_energy(el)), "level-at-zero", rtol=0, atol=1e-8 * w + 1e-10)
    c.close(L[0, 0], cold[0], "zero-temperature-entry", rtol=0, atol=1e-4 * n0)
    c.close(L[1, 0], cold[1], "no-moments-at-zero-temperature", rtol=0, atol=1e-6 * n0 * w)
    c.close(L[2, 0], cold[2], "no-moments-at-zero-temperature", rtol=0, atol=1e-6 * n0 * w**2)
    one = I.integrate_df(lambda e, v, k: np.ones(len(k)))
    c.close(one[0, 0], KI(d, el, [0.0]).integrate_df(lambda e, v, k: np.ones(len(k)))[0, 0], "zero-temperature-density", rtol=1e-4)
    order = rng.permutation(len(Ts))
    J = KI(d, el, list(Ts[order]))
    kT = k_B * np.max(Ts)
    c.close(J.mu, I.mu[order], "level-of-its-own-temperature", rtol=0, atol=1e-5 * w + 2e-2 * kT)
    Lj = J.transport_coefficients(A)
    if np.min(I.integration_weights) > -5e-3:
        for a in range(3):
            c.close(Lj[a], L[a][order], "coefficients-of-their-own-temperature", rtol=0, atol=3e-2 * n0 * kT**a)
        full(I, c, d)


@workload("C19", quick=60, thorough=400)
def tensors(c, rng):
    """exact tensor properties"""
    m, A, d, el, w = gen(rng, N=10)
    cold = rng.random() < .4
    Ts = [0.0] if cold else list(np.sort(w * np.exp(rng.uniform(np.log(5e-3), np.log(3e-2), int(rng.integers(1, 3)))) / k_B))
    I = KI(d, el, Ts)
    c.key(d.bands, el, Ts)
    c.event("cold" if cold else f"{len(Ts)} temperatures")
    mus = [d.chemical_potential(el, Ts, N=n) for n in (30, 50, 200)]  # own error estimate from the number of samples
    c.ok(np.shape(I.mu) == (len(Ts),), "level-shape")
    c.close(I.mu, mus[2], "level", rtol=0, atol=1e-9 * w + 10 * np.max(np.abs(mus[2] - mus[1])) + 10 * np.max(np.abs(mus[1] - mus[0])))
    if not cold and (not full(I, c, d) or np.min(I.integration_weights) < -5e-3):
        raise Skip()  # the quadrature itself is unstable there (the library warns about it)
    L = I.transport_coefficients(A)
    c.ok(L.shape == (3, len(Ts), 3, 3) and np.all(np.isfinite(L)), "coefficient-shape")
    n0 = np.linalg.norm(L[0, 0])
    c.close(L, np.swapaxes(L, -1, -2), "coefficients-symmetric", rtol=1e-9, scale=1.0, atol=1e-9 * np.abs(L).max())
    c.close(I.drude_factor(A), L[0], "drude-is-conductivity-per-time", rtol=1e-9)
    if cold:
        c.ok(np.all(np.linalg.eigvalsh(L[0, 0]) >= -1e-9 * n0), "conductivity-positive-semidefinite")
        c.ok(np.max(np.abs(L[1:])) == 0, "no-moments-at-zero-temperature", f"{np.max(np.abs(L[1:]))}")
        # integral of 1 is the density of states
        one = I.integrate_df(lambda e, v, k: np.ones(len(k)))
        P, bi, wg, _ = d.fermi_surface_samples(I.fermi_energy, improved_points=False)
        b, g = K(m, A).bands_grad(P)
        vn = np.linalg.norm(np.take_along_axis(g, bi[:, None, None], 2)[..., 0], axis=1)
        c.close(one, [[np.sum(wg / (vn + 1e-8))]], "unit-integral-is-density", rtol=1e-6)
    elif full(I) and np.min(I.integration_weights) >= -1e-3:
        for t in range(len(Ts)):
            ev = np.linalg.eigvalsh(L[0, t])
            c.ok(np.all(ev >= -1e-2 * n0), "conductivity-positive-semidefinite", f"{ev}")
            c.ok(np.all(np.linalg.eigvalsh(L[2, t]) >= -1e-2 * np.linalg.norm(L[2, t])), "thermal-coefficient-positive-semidefinite")
    # scaling
    c.close(I.transport_coefficients(A, spin_factor=1), L / 2, "linear-in-spin", rtol=1e-9)
    t = float(np.exp(rng.normal()) * 1e-14)
    c.close(I.transport_coefficients(A, tau=t), L * t, "linear-in-relaxation-time", rtol=1e-9)
    c.close(I.transport_coefficients(A, tau=lambda k: np.full(len(k), t)), L * t, "constant-relaxation-function", rtol=1e-9)
    c.close(I.transport_coefficients(A, max_a=0), L[:1], "fewer-coefficients", rtol=1e-9)
    ta = lambda k: 1 + np.sin(k[:, 0])**2
    tb = lambda k: np.abs(k[:, 1])
    c.close(I.transport_coefficients(A, tau=lambda k: ta(k) + 3 * tb(k)), I.transport_coefficients(A, tau=ta) + 3 * I.transport_coefficients(A, tau=tb), "linear-in-relaxation-function", rtol=1e-8, atol=1e-9 * np.abs(L).max())
    # rotation (flat surfaces enter and leave the grid cells as a whole: a rounding error of the level then is visible)
    ex = 1e-4 if isinstance(m, Cosines) else .3
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    sm = type(d.smearing[0]).__name__
    smn = "cubes+" if "Extra" in sm else "cubes"
    d2 = DensityOfStates(K(m, Q @ A), N=10, A=Q @ A, smearing=smn, check=False)
    L2 = KI(d2, el, Ts).transport_coefficients(Q @ A)
    c.close(L2[0], Q @ L[0] @ Q.T, "conductivity-rotates-as-tensor", rtol=ex)
    # crystal coordinates and explicit lattice
    d3 = DensityOfStates(m, N=10, smearing=smn, check=False)
    L3 = KI(d3, el, Ts).transport_coefficients(A)
    # (the points on the surface differ between coordinate systems, by the order of the grid error)
    c.close(L3[0], L[0], "crystal-coordinates-with-lattice", rtol=.12)
    L3r = KI(DensityOfStates(K(m, np.eye(3) * 3.0), N=10, A=np.eye(3) * 3.0, smearing=smn, check=False), el, Ts).transport_coefficients(A)
    c.close(L3r[0], L3[0], "lattice-relative-to-model-lattice", rtol=ex)
    # bigger lattice: conductivity ~ v^2/V ~ r^2/r^3
    r = float(rng.uniform(.5, 3))
    d4 = DensityOfStates(K(m, A * r), N=10, A=A * r, smearing=smn, check=False)
    c.close(KI(d4, el, Ts).transport_coefficients(A * r)[0] * r, L[0], "conductivity-scales-with-lattice", rtol=ex)
    c.close(KI(d, el, Ts).transport_coefficients(A * r)[0] * r, L[0], "lattice-argument-scales", rtol=ex)
    # energy scale
    s = float(rng.uniform(.5, 2))
    d5 = DensityOfStates(Scaled(K(m, A), s), N=10, A=A, smearing=smn, check=False)
    L5 = KI(d5, el, [x * s for x in Ts]).transport_coefficients(A)
    for a in range(3):
        kT = k_B * max(Ts[-1], 1e-9)
        c.close(L5[a] / kT**a, L[a] * s**(1 + a) / kT**a, "energy-scaling", rtol=max(ex, 1e-2 if not cold else 1e-4), scale=n0 * s)


@workload("C19", quick=40, thorough=300)
def integrals(c, rng):
    """the callback gets consistent arguments and the integral is linear in it"""
    m, A, d, el, w = gen(rng, N=10, sm="cubes")
    Ts = [0.0] if rng.random() < .5 else [w * np.exp(rng.uniform(np.log(5e-3), np.log(2e-2))) / k_B]
    I = KI(d, el, Ts)
    f = K(m, A)
    c.key(d.bands, el, Ts)
    r = float(np.exp(rng.normal()))
    B = 2 * np.pi * np.linalg.inv(A).T / r
    seen = []

    def g(e, v, h, k):
        seen.append(e)
        b, gg, hh = f.bands_grad_hess(k)
        i = np.argmin(np.linalg.norm(gg - v[:, :, None], axis=1), axis=1)
        c.close(np.take_along_axis(gg, i[:, None, None], 2)[..., 0], v, "callback-gradient", rtol=1e-7, atol=1e-9)
        c.close(np.take_along_axis(hh, i[:, None, None, None], 3)[..., 0], h, "callback-hessian", rtol=1e-6, atol=1e-6 * np.abs(h).max(initial=1))
        on = np.abs(np.take_along_axis(b, i[:, None], 1)[:, 0] - e) / w
        c.ok(len(on) == 0 or np.mean(on) < .05, "callback-energy", f"{np.mean(on)}")
        return np.ones(len(k))
    one = I.integrate_df(g, hessians=True, moments=1)
    c.ok(len(seen) == len(I.e_smpl) and one.shape == (2, 1), "integral-shape", f"{one.shape}")
    g1 = lambda e, v, k: np.stack([v[:, 0] * v[:, 1], np.ones(len(k)) * e], -1)
    a = I.integrate_df(g1)
    c.ok(a.shape == (1, 1, 2), "integral-shape")
    c.close(I.integrate_df(lambda e, v, h, k: g1(e, v, k), hessians=True), a, "hessians-do-not-change-integral", rtol=1e-9)
    c.close(KI(d, el, Ts).integrate_df(lambda e, v, h, k: g1(e, v, k), hessians=True), a, "order-of-integrals-irrelevant", rtol=1e-9)
    c.close(I.integrate_df(lambda e, v, k: 3 * g1(e, v, k) + np.ones((len(k), 1))), 3 * a + one[:1, :, None], "integral-linear", rtol=1e-7, atol=1e-9 * np.abs(a).max())
    # first moment: g * (e - mu)
    mu = I.mu[0]
    if Ts[0] > 0:
        c.close(one[1, 0], I.integrate_df(lambda e, v, k: np.full(len(k), e - mu))[0, 0], "moment", rtol=1e-7, atol=1e-9 * abs(one[0, 0]) * w)
        if full(I, c, d):
            e = d.density(mu)
            kT = k_B * Ts[0]
            own = Own(d, 800)
            o = np.sum(own.n * np.cosh(np.clip((own.e - mu) / 2 / kT, -300, 300))**-2) / 4 / kT
            c.close(one[0, 0] * w, o * w, "unit-integral-is-thermal-density", rtol=.25, atol=.25 * own.nb)
    # real units
    u = 1e-10 / HBAR / (2 * np.pi)
    AA = A * r

    def gA(e, v, h, k):
        kc = k @ AA / (2 * np.pi)  # crystal
        b, gg, hh = m.bands_grad_hess(kc)
        vv = np.einsum("ij,njb->nib", AA, gg) * u * E0
        MM = np.einsum("ia,nabt,jb->nijt", AA, hh, AA) * u**2 * E0
        i = np.argmin(np.linalg.norm(vv - v[:, :, None], axis=1), axis=1)
        c.close(np.take_along_axis(vv, i[:, None, None], 2)[..., 0], v, "velocity-in-si-units", rtol=1e-6)
        c.close(np.take_along_axis(MM, i[:, None, None, None], 3)[..., 0], h, "inverse-mass-in-si-units", rtol=1e-5)
        return np.ones(len(k))
    c.close(I.integrate_df_A(AA, gA, hessians=True), one[:1], "unit-integral-independent-of-lattice", rtol=1e-9)
    # the same from a model that lives in crystal coordinates or in those of another lattice
    A3 = None if rng.random() < .5 else lattice(rng)
    try:
        I3 = KI(DensityOfStates(m if A3 is None else K(m, A3), N=10, A=A3, smearing="cubes", check=False), el, Ts)
        I3.integrate_df_A(AA, gA, hessians=True)
        c.event("crystal coordinates" if A3 is None else "another lattice")
    except ValueError:
        pass


@workload("C19", quick=40, thorough=240)
def hall(c, rng):
    smooth = rng.random() < .7
    m, A, d, el, w = gen(rng, N=20, smooth=smooth, sm="cubes")
    T = w * np.exp(rng.uniform(np.log(5e-3), np.log(3e-2))) / k_B
    I = KI(d, el, [T])
    if not full(I, c, d):
        raise Skip()
    kw, tau = {}, None
    if rng.random() < .4:
        kw["tau"] = lambda k: 1e-14 * (1.5 + np.cos(k @ A[:, 0]))
        tau = lambda k: 1e-14 * (1.5 + np.cos(2 * np.pi * k[:, 0]))
    elif rng.random() < .5:
        kw["tau"] = 2e-14
        tau = lambda k: np.full(len(k), 2e-14)
    c.key(d.bands, el, T)
    s2, s3 = I.conductivity_hall_tensor(A, **kw)
    o, o3 = dense(m, A, I.mu[0], T, hess=True, tau=tau)
    tol = .2 if smooth else .3
    tol += spread(m, A, el, T, I.transport_coefficients(A, **kw)[:, 0], "cubes", **kw)[0] / np.linalg.norm(o[0])
    c.ok(s2.shape == (1, 3, 3) and s3.shape == (1, 3, 3, 3), "hall-shape")
    c.close(s2[0], o[0], "hall-conductivity-is-average", rtol=0, atol=tol * np.linalg.norm(o[0]))
    k = scattered(24)
    _, g, h = m.bands_grad_hess(k)
    typ0 = .1 * np.linalg.norm(dense(m, A, I.mu[0], T)[0]) * E0 * np.sqrt(np.mean(h**2)) * 9 * (np.linalg.norm(A) / (2 * np.pi) * 1e-10 / HBAR)**2 * E0
    typ = np.linalg.norm(o3) + .1 * np.linalg.norm(o[0]) * E0 * 1e-14**(1 if tau else 0) * np.sqrt(np.mean(h**2)) * 9 * (np.linalg.norm(A) / (2 * np.pi) * 1e-10 / HBAR)**2 * E0
    c.close(s3[0], o3, "hall-tensor-is-average", rtol=0, atol=1.4 * tol * typ)
    c.close(I.transport_coefficients(A, **kw)[0], s2, "hall-conductivity-is-transport-conductivity", rtol=1e-9)
    c.close(I.conductivity_hall_tensor(A, spin_factor=1, **kw)[1] * 2, s3, "hall-linear-in-spin", rtol=1e-9)
    if np.linalg.cond(s2[0]) < 1e3:
        R = bp.hall_coefficients(s2, s3)
        # inverse relation: sigma3_abk = sigma2_aj R_ijk sigma2_ib ... in the documented (BoltzTraP) index order
        back = np.einsum("...aj,...ijk,...ib->...abk", s2, R, s2)
        c.close(back, s3, "hall-coefficient-relation", rtol=1e-6)
        c.close(bp.hall_coefficients(s2[0], s3[0]), R[0], "hall-single-tensor", rtol=1e-9)
    r = float(rng.uniform(1, 3))
    c.close(I.conductivity_hall_tensor(A, tau=r)[1], I.conductivity_hall_tensor(A)[1] * r**2, "hall-quadratic-in-relaxation-time", rtol=1e-5, atol=1e-5 * typ0)
    # the older formulas per definition, and the spin factor that everything has unless it is given
    V = abs(np.linalg.det(A)) * 1e-30
    sf = float(rng.choice([1, 2]))
    tr = I.integrate_df_A(A, lambda _e, v, k: np.sum(v**2, 1))[0]
    num = I.integrate_df_A(A, lambda _e, v, h, k: np.einsum("ni,nij,nj->n", v, h, v) - np.sum(v**2, 1) * np.trace(h, axis1=1, axis2=2), hessians=True)[0]
    c.close(I.hall_coefficient_metal_cubic(A, spin_factor=sf), 3 / 2 * num / tr**2 * V / sf, "cubic-hall-coefficient-definition", rtol=1e-6, atol=1e-9 * V * np.abs(num).max() / tr.max()**2)
    xy = I.integrate_df_A(A, lambda _e, v, h, k: v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 0, 1], hessians=True)[0]
    xx = I.integrate_df_A(A, lambda _e, v, k: v[:, 0]**2)[0]
    c.close(I.hall_coefficient(A, spin_factor=sf), -xy / xx**2 * V / sf, "hall-coefficient-definition", rtol=1e-6, atol=1e-9 * V * np.abs(num).max() / xx.max()**2)
    for nm in ("transport_coefficients", "drude_factor", "conductivity_hall_tensor", "hall_coefficient_metal_cubic", "hall_coefficient"):
        f = getattr(I, nm)
        for a, b in zip(np.atleast_1d(f(A)) if nm != "conductivity_hall_tensor" else f(A), np.atleast_1d(f(A, spin_factor=2)) if nm != "conductivity_hall_tensor" else f(A, spin_factor=2)):
            c.close(a, b, "default-spin-factor", rtol=1e-12)
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if rng.random() < .4:
        d2 = DensityOfStates(K(m, Q @ A), N=20, A=Q @ A, smearing="cubes", check=False)
        s2q, s3q = KI(d2, el, [T]).conductivity_hall_tensor(Q @ A)
        s3r = np.einsum("ai,bj,ck,ijk->abc", Q, Q, Q, I.conductivity_hall_tensor(A)[1][0]) * np.sign(np.linalg.det(Q))
        c.close(s3q[0], s3r, "hall-tensor-is-pseudotensor", rtol=1e-3)


class Parabola:
    """free electrons of effective mass mass*m_e (or holes) filling a small pocket; crystal units of a cubic lattice a"""

    def __init__(self, a, mass, hole=False, aniso=(1, 1, 1)):
        self.a, self.mass, self.s = a, mass, -1.0 if hole else 1.0
        self.an = np.asarray(aniso, float)
        self.f = HBAR**2 / (2 * mass * ME) * (2 * np.pi / (a * 1e-10))**2 / E0

    def bands_grad_hess(self, k):
        k = np.asarray(k, float)
        b = self.s * self.f * np.sum(k**2 / self.an, -1)[:, None]
        g = self.s * self.f * 2 * (k / self.an)[:, :, None]
        h = np.broadcast_to(self.s * self.f * 2 * np.diag(1 / self.an)[None, :, :, None], (len(k), 3, 3, 1))
        return b, g, h

    def bands_grad(self, k):
        return self.bands_grad_hess(k)[:2]

    def __call__(self, k):
        return self.bands_grad_hess(k)[0]


@workload("C19", quick=24, thorough=150)
def free_electrons(c, rng):
    """Drude, Wiedemann-Franz and Hall for a parabolic pocket"""
    a = float(rng.uniform(2, 8))
    mass = float(np.exp(rng.uniform(-1, 1)))
    hole = bool(rng.random() < .4)
    an = np.exp(rng.uniform(-.4, .4, 3)) if rng.random() < .5 else np.ones(3)
    m = Parabola(a, mass, hole, an)
    A = np.eye(3) * a
    n = float(rng.uniform(.05, .25))
    d = DensityOfStates(K(m, A), N=24, A=A, check=False, wrap=False)
    el = 1 - n if hole else n
    sf = float(rng.choice([1, 2]))
    c.key(a, mass, n, an)
    c.event("holes" if hole else "electrons")
    V = a**3 * 1e-30
    M = an * mass * ME
    I = KI(d, el, [0.0])
    D = I.drude_factor(A, spin_factor=sf)[0]
    # at fixed spin factor the carrier density is spin_factor * n / V
    expect = np.diag(sf * n * E0**2 / V / M)
    c.close(D, expect, "drude", rtol=.06)
    s2, s3 = I.conductivity_hall_tensor(A, spin_factor=sf)
    R = bp.hall_coefficients(s2, s3)[0]
    sign = 1.0 if hole else -1.0
    rh = sign * V / (sf * n * E0)
    val = [R[i, j, k] for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]
    c.close(np.abs(val), np.full(3, abs(rh)), "hall-coefficient", rtol=.1)
    val2 = [R[j, i, k] for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]
    c.close(np.array(val2), -np.array(val), "hall-antisymmetric", rtol=1e-2, atol=.05 * abs(rh))
    c.ok(len({np.sign(x) for x in val}) == 1, "hall-sign-isotropic")
    if not hasattr(c, "_sgn"):
        # the sign distinguishes electrons from holes
        m2 = Parabola(a, mass, not hole, an)
        d2 = DensityOfStates(K(m2, A), N=24, A=A, check=False, wrap=False)
        R2 = bp.hall_coefficients(*KI(d2, 1 - el, [0.0]).conductivity_hall_tensor(A, spin_factor=sf))[0]
        c.close([R2[i, j, k] for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1))], -np.array(val), "hall-sign-of-carriers", rtol=5e-2)
    if np.all(an == 1):
        rc = I.hall_coefficient_metal_cubic(A, spin_factor=sf)
        c.close(np.ravel(rc)[0], rh, "cubic-hall-coefficient", rtol=.1)
    # Wiedemann-Franz at a temperature far below the Fermi energy
    W = m.f * n**(2 / 3) * .62
    T = float(rng.uniform(.01, .04)) * W / k_B
    J = KI(d, el, [T])
    if full(J, c, d):
        L = J.transport_coefficients(A, spin_factor=sf)[:, 0]
        lor = np.diag(L[2]) / np.diag(L[0]) / T**2
        c.close(lor, np.full(3, np.pi**2 / 3 * k_B**2), "wiedemann-franz", rtol=.15)
        c.close(np.diag(L[0]), np.diag(expect), "warm-drude", rtol=.1)
        # thermopower of a parabolic band at constant relaxation time: |S| = pi^2/2 kB^2 T / E_F
        S = np.diag(bp.seebeck(L, T))
        ef = abs(d.fermi_energy(el) - (d.energy_range()[1] if hole else d.energy_range()[0]))
        c.close(np.abs(S), np.full(3, np.pi**2 / 2 * k_B**2 * T / ef), "thermopower", rtol=.3)
        c.ok(np.all(np.sign(S) == (-1 if hole else 1)), "thermopower-sign", f"{S} hole={hole}")


@workload("C19", quick=16, thorough=80)
def insulators(c, rng):
    m = Cosines(rng, n=2, gap=float(rng.uniform(.1, 1)))
    A = lattice(rng)
    d = DensityOfStates(K(m, A), N=8, A=A, check=False)
    c.key(d.bands)
    if not d.bandgap(1) > 0:
        raise Skip()
    I = KI(d, 1, [0.0])
    L = I.transport_coefficients(A)
    c.ok(L.shape == (3, 1, 3, 3), "insulator-shape", f"{L.shape}")
    c.ok(I.conductivity_hall_tensor(A)[1].shape == (1, 3, 3, 3), "insulator-shape")
    c.ok(np.all(L == 0), "insulator-does-not-conduct")
    c.ok(I.metal is False or not I.metal, "insulator-detected")
