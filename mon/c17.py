"""C17: thermal averages are the Fermi-Dirac integrals of the density of states."""
import math
import numpy as np
from scipy.integrate import quad
from scipy.special import expit, zeta
from .core import workload, Skip
from .dosmodels import Plain, Affine, K, any_model, lattice
from .thermal import Own, make, filling, jump, k_B, SMEAR
from tight_binding_redweasel import density_of_states as dm
from tight_binding_redweasel.density_of_states import DensityOfStates


def mdf(x):
    """-f'(x) of the Fermi function at beta=1"""
    return expit(x) * expit(-x)


def moment_df(m):
    """integral x^m (-f') dx"""
    if m % 2:
        return 0.0
    return 1.0 if m == 0 else 2 * math.factorial(m) * (1 - 2.0**(1 - m)) * float(zeta(m)) if m > 1 else 1.0


def moment_f(m):
    """integral x^m / (1 + e^|x|) dx"""
    if m % 2:
        return 0.0
    return 2 * math.log(2) if m == 0 else 2 * math.factorial(m) * (1 - 2.0**(-m)) * float(zeta(m + 1))


@workload("C17", quick=40, thorough=400)
def quadrature_rules(c, rng):
    mu, beta = rng.normal() * 2, np.exp(rng.uniform(-2, 5))
    for name, n, mom in (("gauss_5_df", 5, moment_df), ("gauss_7_df", 7, moment_df), ("gauss_4_f", 4, moment_f), ("gauss_6_f", 6, moment_f)):
        deg = int(rng.integers(0, 2 * n))
        p = rng.normal(size=(deg + 1, 3))
        p *= (np.arange(deg + 1) % 2 == 0)[:, None] + rng.random() * 1.0  # mixed parity
        f = lambda x: np.stack([np.polyval(p[::-1, j], (x - mu) * beta) for j in range(3)], -1)
        got = getattr(dm, name)(f, mu, beta)
        exp = sum(p[m] * mom(m) for m in range(deg + 1)) * (1 / beta if name.endswith("_f") else 1)
        scale = sum(np.abs(p[m]) * mom(m + m % 2) for m in range(deg + 1)) * (1 / beta if name.endswith("_f") else 1)
        c.key(name, p)
        c.ok(np.shape(got) == (3,), "rule-shape")
        c.ok(np.all(np.abs(got - exp) <= 1e-9 * scale), "rule-exact-for-polynomials", f"{name} degree {deg}: {got} {exp}")
        one = getattr(dm, name)(lambda x: np.polyval(p[::-1, 0], (x - mu) * beta), mu, beta)
        c.ok(abs(one - exp[0]) <= 1e-9 * scale[0], "rule-scalar-function", name)
    for _ in range(8):
        x0 = rng.uniform(-40, 40) if rng.random() < .5 else rng.normal() * 2
        x1 = x0 + abs(rng.normal()) * rng.choice([.1, 3, 30])
        a, b, d = rng.normal(size=3)
        q = sum(quad(lambda x: (a * x * x + b * x + d) * mdf(x), lo, hi, epsabs=1e-13, epsrel=1e-11, limit=200)[0]
                for lo, hi in zip(np.linspace(x0, x1, 9)[:-1], np.linspace(x0, x1, 9)[1:]))
        c.close(dm.int_poly(x0, x1, a, b, d), q, "polynomial-integral", rtol=1e-8, atol=1e-10)
    c.close(dm.int_poly(-np.inf if False else -300.0, 300.0, 1, 1, 1), np.pi**2 / 3 + 1, "sommerfeld-integral", rtol=1e-9)


@workload("C17", quick=60, thorough=600)
def convolution(c, rng):
    """exact for piecewise linear functions"""
    n = int(rng.integers(2, 9))
    e = np.cumsum(rng.uniform(.05, 1.0, n)) + rng.normal()
    batch = tuple(rng.integers(1, 4, size=rng.integers(0, 3)))
    s = rng.normal(size=batch + (n,)) if rng.random() < .5 else np.cumsum(rng.uniform(0, 1, size=batch + (n,)), -1)
    beta = np.exp(rng.uniform(-2, 5))
    ext = rng.choice(["flat", "none", "point"])
    kw = dict(flat=dict(extrapolation="flat"), none=dict(extrapolation=None), point=dict(extrapolation="flat", extrapolation_point=(e[-1], 2.0)))[str(ext)]
    c.key(e, s, beta, ext)
    c.event("extrapolation " + str(ext))
    x = rng.choice([rng.uniform(e[0] - 2, e[-1] + 2), e[rng.integers(n)]])

    def own(x):
        out = 0.0
        # integral s(e) (-df/de)(e - x): on each piece with the antiderivatives of f
        for i in range(n - 1):
            u, v = (e[i] - x) * beta, (e[i + 1] - x) * beta
            a = (s[..., i + 1] - s[..., i]) / (v - u)
            b = s[..., i] - a * u
            m0 = expit(v) - expit(u)
            g = lambda t: t * expit(t) - np.logaddexp(0, t)
            m1 = g(v) - g(u)
            out = out + a * m1 + b * m0
        if ext != "none":
            right = s[..., -1] if ext == "flat" else 2.0
            out = out + right * expit(-(e[-1] - x) * beta)
            if ext == "flat":
                out = out + s[..., 0] * expit((e[0] - x) * beta)
        return out
    got = dm.convolve_df(x, e, s, beta, **kw)
    sc = np.max(np.abs(s)) * max(1, 1e-3 * beta / np.min(np.diff(e)))
    c.close(got, own(x), "convolution-exact", rtol=0, atol=1e-10 * sc * max(1, beta), message=str(ext))
    h = 1e-4 / beta
    der = (own(x + h) - own(x - h)) / 2 / h
    c.close(dm.convolve_ddf(x, e, s, beta, **kw), der, "derivative-of-convolution", rtol=1e-5, atol=1e-5 * sc * beta, message=str(ext))
    c.close(dm.convolve_df(x, e, s, 1e6, **kw) if np.min(np.abs(e - x)) > 1e-3 and e[0] < x < e[-1] else 0 * got,
            np.apply_along_axis(lambda y: np.interp(x, e, y), -1, s) if np.min(np.abs(e - x)) > 1e-3 and e[0] < x < e[-1] else 0 * got, "cold-limit", rtol=1e-5, atol=1e-5 * sc)


@workload("C17", quick=60, thorough=300)
def curves(c, rng):
    m, A, d, own, sm = make(rng)
    w = own.w
    if w < 1e-6:
        raise Skip()
    T = w * np.exp(rng.uniform(np.log(2e-3), np.log(.3))) / k_B
    n = int(rng.integers(3, 30))
    e, s, r = d.full_curve(N=n, T=T)
    e0, s0, r0 = d.full_curve(N=n)
    c.key(d.bands, sm, T)
    c.event(sm)
    kT = k_B * T
    c.ok(len(e) == len(s) == len(r) == len(e0) + 2 * n and np.all(np.diff(e) > -1e-9 * w), "curve-shape")
    c.ok(e[0] < own.lo - 3 * kT and e[-1] > own.hi + 3 * kT and set(np.round(e0, 9)) <= set(np.round(e, 9)), "curve-energies")

    if np.min(np.diff(e0)) < 1e-10 * w:
        # band edges that coincide up to rounding: neither the code nor the reference can divide by their distance
        c.event("coinciding energies")
        return

    def smear(y, x, flat):
        u = (e0[None] - x[:, None]) / kT
        g = u * expit(u) - np.logaddexp(0, u)
        f = expit(u)
        a = np.diff(y)[None] / np.diff(u, axis=1)
        b = y[None, :-1] - a * u[:, :-1]
        out = np.sum(a * np.diff(g, axis=1) + b * np.diff(f, axis=1), axis=1)
        if flat:
            out += y[-1] * expit(-u[:, -1]) + y[0] * expit(u[:, 0])
        return out
    c.close(s, smear(s0, e, True), "thermal-states-are-smeared-states", rtol=1e-7, atol=1e-7)
    c.close(r * w, smear(r0, e, False) * w, "thermal-density-is-smeared-density", rtol=1e-6, atol=1e-6)
    if sm != "cubes+":
        c.ok(np.all(np.diff(s) >= -1e-7) and np.all(s >= -1e-9) and np.all(s <= own.nb + 1e-9) and np.all(r >= -1e-9 / w), "thermal-curve-monotone")
    # the sampled curve converges to the exact occupation
    ef, sf, rf = d.full_curve(N=120, T=T)
    j = rng.integers(len(ef), size=8)
    c.close(sf[j], [own.N(ef[i], T) for i in j], "thermal-states-are-occupation", rtol=0, atol=(1e-2 if sm != "cubes+" else 3e-2) * own.nb, message=sm)


@workload("C17", quick=80, thorough=400)
def energy(c, rng):
    m, A, d, own, sm = make(rng, gap=float(rng.uniform(.05, .6)) if rng.random() < .3 else None)
    w, nb = own.w, own.nb
    if w < 1e-6 or any(b - a < 1e-3 * w for a, b in own.edges):
        raise Skip()
    sf = float(rng.choice([1, 2]))
    tol = (3e-3 if sm != "cubes+" else 2e-2)
    c.key(d.bands, sm)
    sc = max(abs(own.lo), abs(own.hi), w) * nb * sf
    T = np.sort(w * np.exp(rng.uniform(np.log(1e-3), np.log(.6), 3)) / k_B)
    for _ in range(2):
        mu = rng.choice([rng.uniform(own.lo - .1 * w, own.hi + .1 * w), own.lo - w * rng.random() * 3, own.hi + w * rng.random() * 3, own.lo, own.hi], p=[.6, .1, .1, .1, .1])
        for t in [0.0] + list(T):
            c.close(d.energy(mu, t, spin_factor=sf), own.E(mu, t) * sf, "energy-is-fermi-integral", rtol=0, atol=tol * sc, message=f"{sm} T={t*k_B/w:.2e}w mu={mu}")
        if min(abs(mu - x) for e in own.edges for x in e) > 1e-3 * w:  # a coarse grid may jump at the edges
            c.close(d.energy(mu, 1e-7 * w / k_B, spin_factor=sf), d.energy(mu, 0, spin_factor=sf), "cold-energy", rtol=0, atol=1e-4 * sc)
        c.close(d.energy(mu, T[1]), d.energy(mu, T[1], spin_factor=1) * 2, "two-spins-by-default", rtol=1e-12)
    # at constant filling the energy rises with temperature
    el = filling(rng, nb)
    if not own.gap(el) and jump(d, el, w):
        raise Skip()
    mu = d.chemical_potential(el, np.concatenate([[0.0], T]))
    E = [d.energy(x, t, spin_factor=1) for x, t in zip(mu, [0.0] + list(T))]
    c.ok(np.all(np.diff(E) >= -tol * sc / sf), "energy-rises-with-temperature", f"{E}")
    own_E = [own.E(own.mu(el, t), t) for t in T]
    c.close(E[1:], own_E, "energy-at-filling", rtol=0, atol=2 * tol * sc / sf)
    c.note(el=el, mu=mu, E=E, smearing=sm)


@workload("C17", quick=40, thorough=160)
def heat(c, rng):
    """the heat capacity is the temperature derivative of the energy at constant filling"""
    m, A, d, own, sm = make(rng, nmax=3, N=int(rng.choice([4, 6])), gap=float(rng.uniform(.05, .6)) if rng.random() < .2 else None, smearing=str(rng.choice(["cubes", "tetras", "spheres"])))
    w, nb = own.w, own.nb
    if w < 1e-6 or any(b - a < 3e-2 * w for a, b in own.edges):
        raise Skip()
    el = filling(rng, nb)
    if not own.gap(el) and jump(d, el, w):
        raise Skip()
    T = w * np.exp(rng.uniform(np.log(1e-2), np.log(.5))) / k_B
    sf = float(rng.choice([1, 2]))
    c.key(d.bands, el, T)
    C = d.heat_capacity(el, T, N=2000, spin_factor=sf) / k_B / sf
    # expected: integral rho e (e - mu + mu' T)/T (-f') de with own level and derivative
    x, h = own.mu(el, T), 1e-3
    dmu = own.dmu(el, T)
    e = np.linspace(own.lo - 1e-9, own.hi + 1e-9, 1500)
    e = (e[1:] + e[:-1]) / 2
    de = e[1] - e[0]
    near = np.abs(e - x) < 45 * k_B * T
    rho = np.zeros(len(e))
    rho[near] = [d.density(y) for y in e[near]]
    kT = k_B * T
    o = np.sum(rho * e * (e - x + dmu * T) / T * mdf((e - x) / kT) / kT) * de / k_B
    E1 = own.C(el, T, h) / k_B
    sc = nb * max(1.0, abs(o))
    c.close(C, o, "heat-capacity-is-fermi-integral", rtol=0, atol=.06 * sc, message=f"{sm} T={kT/w}w el={el}")
    c.close(C, E1, "heat-capacity-is-energy-derivative", rtol=0, atol=.12 * sc, message=f"{sm} T={kT/w}w el={el}")
    c.ok(C >= -.06 * sc, "heat-capacity-nonnegative", f"{C}")
    c.ok(d.heat_capacity(el, 0.0) == 0, "no-heat-capacity-at-zero")
    c.close(d.heat_capacity(el, T, N=300), 2 * d.heat_capacity(el, T, N=300, spin_factor=1), "two-spins-by-default", rtol=1e-9)
    # shifting all bands adds nothing
    t = float(rng.normal() * w)
    d2 = DensityOfStates(Affine(d.model, 1.0, t), N=round(len(d.k_smpl)), A=A, smearing=sm, check=False)
    c.close(d2.heat_capacity(el, T, N=2000, spin_factor=sf) / k_B / sf, C, "heat-capacity-shift-invariant", rtol=0, atol=.12 * sc + .02 * nb * abs(t) / kT)
    c.note(el=el, T=T, C=C, oracle=o)


@workload("C17", quick=60, thorough=400)
def resolved(c, rng):
    m, A, d, own, sm = make(rng, smearing=str(rng.choice(SMEAR[:3])), own=True)
    w = own.w
    if w < 1e-6:
        raise Skip()
    kT = w * np.exp(rng.uniform(np.log(1e-2), np.log(.3)))
    T = kT / k_B
    mu = rng.choice([rng.uniform(own.lo - .05 * w, own.hi + .05 * w), own.lo - w, own.hi + w, own.lo, own.hi], p=[.8, .05, .05, .05, .05])
    c.key(d.bands, mu, T)
    r = d.k_resolved_density(mu, T, N=200)
    c.ok(r.shape == d.k_smpl.shape[:3] and np.all(r >= -1e-6 / w), "resolved-shape-and-sign")
    o = np.sum(own.n * mdf((own.e - mu) / kT)) / kT
    c.close(r.mean() * w, o * w, "resolved-sums-to-thermal-density", rtol=3e-2, atol=3e-2 * own.nb, message=f"{sm} {kT/w}")
    r0 = d.k_resolved_density(mu, 0.0)
    if np.min(np.abs(np.array(d.bands_range) - mu)) > 1e-2 * w:
        inside = [i for i, (a, b) in enumerate(own.edges) if a < mu < b]
        # outside of the range of a band, its cells still contribute the tails of their linear interpolation
        tails = sum(float(np.mean(s.dvolume(mu))) for s, (a, b) in zip(d.smearing, d.bands_range) if not a < mu < b)
        c.close(np.mean(r0), d.density(mu) + tails, "cold-resolved-sums-to-density", rtol=1e-2, atol=1e-3 / w)
        c.close(tails * w, 0.0, "cold-resolved-tails-are-small", rtol=0, atol=.2 * own.nb)
    # per k: thermal smearing of that cell's count
    i = tuple(rng.integers(len(d.k_smpl), size=3))
    e = np.linspace(own.lo - .01 * w, own.hi + .01 * w, 1500)
    cell = np.array([sum(s.volume(x)[i] for s in d.smearing) for x in e])
    em = (e[1:] + e[:-1]) / 2
    o = np.sum(np.diff(cell) * mdf((em - mu) / kT)) / kT
    c.close(r[i] * w, o * w, "resolved-cell", rtol=5e-2, atol=.1 * own.nb, message=sm)


@workload("C17", quick=40, thorough=300)
def naive(c, rng):
    shape = tuple(rng.integers(1, 6, size=rng.integers(1, 4))) + (int(rng.integers(1, 5)),)
    b = rng.normal(size=shape)
    mu, T = rng.normal(), float(np.exp(rng.uniform(3, 9)))
    nk = b.size // shape[-1]
    sf = float(rng.choice([1, 2]))
    c.key(b, mu)
    c.close(dm.naive_energy(b, mu, T, sf), sum(x / (1 + math.exp((x - mu) / (k_B * T))) if (x - mu) / (k_B * T) < 700 else 0 for x in b.ravel()) / nk * sf, "naive-energy", rtol=1e-9, atol=1e-12)
    c.close(dm.naive_energy(b, mu, 0.0, sf), sum(x for x in b.ravel() if x <= mu) / nk * sf, "naive-energy-cold", rtol=1e-9, atol=1e-12)
    c.close(dm.naive_energy(b, mu, T), 2 * dm.naive_energy(b, mu, T, 1), "naive-two-spins", rtol=1e-12)
    if rng.random() < .4:
        m, A, d, own, sm = make(rng, N=8, smearing="cubes")
        if own.w < 1e-6:
            raise Skip()
        x = (np.arange(16) + .5) / 16
        k = np.stack(np.meshgrid(x, x, x, indexing="ij"), -1).reshape(-1, 3)
        e = m(k)
        mu, T = rng.uniform(own.lo, own.hi), rng.uniform(.05, .5) * own.w / k_B
        c.close(dm.naive_energy(e, mu, T), d.energy(mu, T), "sampled-and-smeared-energy-agree", rtol=0, atol=.1 * own.nb * max(abs(own.lo), abs(own.hi)))


@workload("C17", quick=40, thorough=300)
def sampling(c, rng):
    """the internal energy sampling is sorted, stays in range and gives equal weights"""
    mu, beta, N = rng.normal(), np.exp(rng.uniform(-1, 6)), int(rng.integers(4, 60))
    e0 = mu - abs(rng.normal()) * rng.choice([.1, 1, 10])
    e1 = mu + abs(rng.normal()) * rng.choice([.1, 1, 10])
    if not hasattr(dm, "_samples"):
        raise Skip()  # internal helper
    e = dm._samples(e0, e1, mu, beta, N)
    c.key(e)
    c.ok(len(e) == N and np.all(np.diff(e) > 0), "samples-sorted")
    c.ok(e[0] >= e0 - 1e-2 / beta - 1e-9 * abs(e0) and e[-1] <= e1 + 1e-2 / beta + 1e-9 * abs(e1) or (e1 - e0) * beta > 30, "samples-in-range", f"{e[0]} {e0} {e[-1]} {e1}")
    # secant inverts increasing functions
    a, b = np.sort(rng.normal(size=2) * 3)
    y = rng.normal()
    x = dm.secant(y, lambda t: np.sinh(t) + .5 * t, -.2, .3, 1e-12, 100)
    c.close(np.sinh(x) + .5 * x, y, "secant-root", rtol=0, atol=1e-9)
