"""C16: Fermi level, chemical potential and band gap are consistent with the filling."""
import numpy as np
from .core import workload, Skip
from .dosmodels import Plain, Affine, K, Cosines, lattice
from .thermal import Own, make, filling, jump, k_B, SMEAR
from tight_binding_redweasel import density_of_states as dm
from tight_binding_redweasel.density_of_states import DensityOfStates


def flat(d):
    w = d.energy_range()[1] - d.energy_range()[0]
    return any(b - a < 1e-3 * w for a, b in d.bands_range) or w < 1e-6


@workload("C16", quick=160, thorough=1600)
def fermi_level(c, rng):
    m, A, d, _, sm = make(rng, own=False, gap=10 ** float(rng.uniform(-6, -1)) if rng.random() < .2 else None)
    if flat(d):
        raise Skip()
    nb = d.model_bandcount()
    br = np.array(d.bands_range, float)
    w = br.max() - br.min()
    c.key(d.bands, sm)
    c.close(d.fermi_energy(0), br[0, 0], "empty-at-bottom", rtol=1e-12)
    c.close(d.fermi_energy(nb), br[-1, 1], "full-at-top", rtol=1e-12)
    last = -np.inf

    def gapped(n):
        i = int(round(n))
        return i == n and 0 < i < nb and br[i - 1, 1] < br[i, 0]
    for n in np.sort([filling(rng, nb) for _ in range(6)]):
        if not gapped(n) and jump(d, n, w):
            c.event("filling never reported")
            continue
        ef = d.fermi_energy(n)
        c.ok(np.isscalar(ef) or np.ndim(ef) == 0, "scalar")
        s = d.states_below(ef)
        i = int(round(n))
        if gapped(n):
            c.event("insulator")
            c.ok(br[i - 1, 1] < ef < br[i, 0], "level-inside-gap", f"{ef} {br}")
            c.close(s, n, "insulator-states", rtol=0, atol=1e-12)
            # a level at either side of the gap is the band extremum
            if sm != "cubes+":
                g = d.bandgap(n)
                c.ok(d.states_below(br[i - 1, 1] - 1e-3 * w) <= n + 1e-9 and d.states_below(br[i, 0] + 1e-3 * w) >= n - 1e-9, "gap-edges-are-extrema")
        else:
            c.event("metal " + sm)
            rho = max(d.density(ef), d.density(ef + 1e-6 * w), d.density(ef - 1e-6 * w), nb / w)
            # a band edge that the level sits on may be a jump of the sampled count
            edge = np.min(np.abs(br - ef)) < 1e-6 * w
            if sm != "cubes+" or not edge:
                c.close(s, n, "metal-states", rtol=0, atol=1e-6 + 1e-7 * rho * w + (2e-3 if edge else 0), message=f"n={n} {sm}")
        if sm != "cubes+":
            c.ok(ef >= last - 1e-6 * w, "level-rises-with-filling", f"{last} {ef}")
        last = ef
        # band gap
        if i == n and 0 < i < nb:
            g = d.bandgap(n)
            c.close(g, max(0.0, br[i, 0] - br[i - 1, 1]), "gap-is-band-distance", rtol=1e-12, atol=1e-12 * w)
            sampled = d.bands[..., i].min() - d.bands[..., i - 1].max()
            c.ok(g <= max(sampled, 0) + 1e-9 * w, "gap-within-sampled-extrema", f"{g} {sampled}")
            if isinstance(d.model, Plain):
                c.close(g, max(0.0, sampled), "gap-of-sampled-data", rtol=1e-9, atol=1e-9 * w)
        elif i != n:
            c.ok(d.bandgap(n) == 0, "no-gap-for-fractional-filling")
        c.note(n=n, ef=ef, smearing=sm, states=s)


@workload("C16", quick=80, thorough=600)
def true_gap(c, rng):
    """analytic extrema of separated cosine bands"""
    n = int(rng.integers(2, 4))
    m = Cosines(rng, n=n, gap=float(rng.uniform(.05, 1.0) if rng.random() < .7 else 10 ** rng.uniform(-5, -1.5)), even=True)
    A = lattice(rng)
    lo = np.array([e - np.sum(np.abs(a)) for e, a in zip(m.c, m.a)])
    hi = np.array([e + np.sum(np.abs(a)) for e, a in zip(m.c, m.a)])
    wrap = bool(rng.random() < .7)
    mid = bool(rng.random() < .4) and wrap
    ranges = ((0, .5),) * 3 if (rng.random() < .3 and not wrap) else ((-.5, .5),) * 3
    N = int(rng.integers(7, 11)) if wrap and (mid or rng.random() < .5) else 2 * int(rng.integers(2, 5))
    d = DensityOfStates(K(m, A), N=N, A=A, smearing=str(rng.choice(SMEAR[:3])), wrap=wrap, midpoint=mid, ranges=ranges, check=1e-6)
    br = np.array(d.bands_range)
    c.key(lo, hi)
    tol = (2e-3 if mid else 1e-6)
    if mid or N % 2 and wrap:
        tol = .02  # extrema not on the grid, two Newton steps
    c.close(br[:, 0], lo, "band-minimum", rtol=0, atol=tol * (hi - lo).max(), message=f"mid={mid} N={N} wrap={wrap}")
    c.close(br[:, 1], hi, "band-maximum", rtol=0, atol=tol * (hi - lo).max())
    for i in range(1, n):
        g = lo[i] - hi[i - 1]
        c.close(d.bandgap(i), g, "true-gap", rtol=0, atol=2 * tol * (hi - lo).max())
        c.close(d.fermi_energy(i), (lo[i] + hi[i - 1]) / 2, "level-in-middle-of-gap", rtol=0, atol=2 * tol * (hi - lo).max())
        c.event("gap checked")
    c.close(d.energy_range(), (lo[0], hi[-1]), "energy-range", rtol=0, atol=tol * (hi - lo).max())


@workload("C16", quick=120, thorough=1000)
def chemical(c, rng):
    m, A, d, own, sm = make(rng, gap=float(rng.uniform(.05, .6)) if rng.random() < .3 else None)
    if flat(d):
        raise Skip()
    nb, w = own.nb, own.w
    el = filling(rng, nb)
    if not own.gap(el) and jump(d, el, w):
        raise Skip()
    ef = d.fermi_energy(el)
    gap = own.gap(el)
    T = np.sort(w * np.exp(rng.uniform(np.log(1e-3), np.log(.6), 4)) / k_B)
    Ts = np.concatenate([[0.0], T])
    mu = d.chemical_potential(el, Ts)
    c.key(d.bands, sm, el)
    c.ok(np.shape(mu) == (5,) and np.all(np.isfinite(mu)), "finite", f"{mu}")
    c.close(mu[0], ef, "zero-temperature-is-fermi-energy", rtol=0, atol=1e-12)
    tol = (1e-2 if sm == "cubes+" else 4e-3)
    c.event("insulator" if gap else "metal")
    for t, x in zip(T, mu[1:]):
        c.close(own.N(x, t), el, "occupation-equals-filling", rtol=0, atol=tol * nb, message=f"{sm} T={t*k_B/w:.2e}w el={el}")
    single = np.array([d.chemical_potential(el, t)[0] for t in T])
    for t, x in zip(T, single):
        c.close(own.N(x, t), el, "occupation-equals-filling-single", rtol=0, atol=tol * nb, message=f"{sm} T={t*k_B/w:.2e}w")
    fine = d.chemical_potential(el, T[-2:], N=300)
    for t, x in zip(T[-2:], fine):
        c.close(own.N(x, t), el, "occupation-converges-with-samples", rtol=0, atol=(2e-3 if sm == "cubes+" else 3e-4) * nb)
    # T -> 0
    t0 = 1e-4 * w / k_B
    x = d.chemical_potential(el, [t0])[0]
    if gap:
        c.ok(gap[0] - 20 * k_B * t0 <= x <= gap[1] + 20 * k_B * t0, "cold-insulator-level-in-gap", f"{gap} {x}")
    elif sm != "cubes+":
        c.close(d.states_below(x), el, "cold-metal-level", rtol=0, atol=1e-2 * nb, message=f"ef={ef} mu={x}")
    c.note(el=el, smearing=sm, mu=mu, Ts=Ts)
    # more electrons, higher level
    for j in (0, -1):
        el2 = min(nb - .01, el + .2)
        if el2 > el and not (gap or own.gap(el2)):
            c.ok(d.chemical_potential(el2, [T[j]])[0] >= single[j] - 2e-2 * k_B * T[j] - 1e-6 * w or sm == "cubes+", "level-rises-with-filling")


@workload("C16", quick=80, thorough=600)
def slope(c, rng):
    """`seebeck` is the temperature derivative of the level"""
    m, A, d, own, sm = make(rng, smearing=str(rng.choice(SMEAR[:3])))
    if flat(d):
        raise Skip()
    el = filling(rng, own.nb)
    if not own.gap(el) and jump(d, el, own.w):
        raise Skip()
    T = np.sort(own.w * np.exp(rng.uniform(np.log(1e-2), np.log(.5), 2)) / k_B)
    c.key(d.bands, el)
    s = d.seebeck(el, T, N=100)
    o = np.array([own.dmu(el, t) for t in T])
    c.close(s / k_B, o / k_B, "slope-of-chemical-potential", rtol=3e-2, scale=np.abs(o / k_B), atol=3e-2, message=f"{sm} el={el} T={T*k_B/own.w}")
    s0 = d.seebeck(el, np.array([0.0, T[0], T[1]]), N=100)
    c.ok(s0.shape == (3,) and s0[0] == 0, "no-slope-at-zero")
    c.close(s0[1:], s, "slope-batch", rtol=1e-6, atol=1e-12)
    c.ok(np.array_equal(d.seebeck(el, np.zeros(3)), np.zeros(3)), "no-slope-at-zero")
    # zero temperature at any place of the list
    for place in ([1], [2], [0, 1, 2]):
        Tz = np.insert(T, place, 0.0) if len(place) == 1 else np.array([0.0, T[0], 0.0, T[1], 0.0])
        sz = d.seebeck(el, Tz, N=100)
        c.ok(np.shape(sz) == Tz.shape and np.all(sz[Tz == 0] == 0), "no-slope-at-zero-anywhere", f"{Tz} {sz}")
        c.close(sz[Tz > 0], s, "slope-of-its-own-temperature", rtol=1e-6, atol=1e-12)
    # against the same object's level (no approximation between them)
    t = T[1]
    a, b = d.chemical_potential(el, [t - 1e-4, t + 1e-4], N=100)
    c.close(d.seebeck(el, [t], N=100)[0] / k_B, (b - a) / 2e-4 / k_B, "slope-is-own-difference", rtol=1e-3, atol=1e-3)


@workload("C16", quick=80, thorough=600)
def relations(c, rng):
    from .dosmodels import any_model
    m0 = any_model(rng, 3)
    A = lattice(rng)
    base = Plain(K(m0, A))
    sm = str(rng.choice(SMEAR[:3]))
    N = 2 * int(rng.integers(2, 5))

    def dos(f):
        return DensityOfStates(f, N=N, A=A, smearing=sm, check=False)
    d = dos(base)
    if flat(d):
        raise Skip()
    nb = d.model_bandcount()
    e0, e1 = d.energy_range()
    w = e1 - e0
    el = filling(rng, nb)
    if not Own(d, 3).gap(el) and jump(d, el, w):
        raise Skip()
    T = w * np.exp(rng.uniform(np.log(5e-3), np.log(.4))) / k_B
    s, t = float(rng.uniform(.3, 4)), float(rng.normal() * 5)
    d2 = dos(Affine(base, s, t))
    c.key(d.bands, sm, el)
    rho = d.density(d.fermi_energy(el)) * w
    if rho < .05 and not Own(d, 3).gap(el):
        raise Skip()  # ill-conditioned: nearly no states around the level
    atol = w * 1e-6
    c.close((d2.fermi_energy(el) - t) / s, d.fermi_energy(el), "affine-fermi-energy", rtol=0, atol=atol)
    kT = k_B * T
    mu = d.chemical_potential(el, [T], N=200)[0]
    insul = Own(d, 3).gap(el)
    tol = kT * (.05 if not insul else 20)
    c.close((d2.chemical_potential(el, [T * s], N=200)[0] - t) / s, mu, "affine-chemical-potential", rtol=0, atol=tol)
    d3 = dos(Affine(base, -1.0, 0.0))
    c.close(-d3.fermi_energy(nb - el), d.fermi_energy(el), "particle-hole-fermi-energy", rtol=0, atol=atol * 10)
    c.close(-d3.chemical_potential(nb - el, [T], N=200)[0], mu, "particle-hole-chemical-potential", rtol=0, atol=tol)
    if el == round(el) and 0 < el < nb:
        c.close(d2.bandgap(el), d.bandgap(el) * s, "affine-gap", rtol=1e-9, atol=1e-9 * w)
        c.close(d3.bandgap(nb - el), d.bandgap(el), "particle-hole-gap", rtol=1e-9, atol=1e-9 * w)
    d4 = dos(lambda k: np.repeat(base(k), 2, axis=-1))
    c.close(d4.fermi_energy(2 * el), d.fermi_energy(el), "doubled-bands-fermi-energy", rtol=0, atol=atol * 10)
    c.close(d4.chemical_potential(2 * el, [T], N=200)[0], mu, "doubled-bands-chemical-potential", rtol=0, atol=tol)


@workload("C16", quick=60, thorough=400)
def naive(c, rng):
    shape = tuple(rng.integers(1, 7, size=rng.integers(1, 4))) + (int(rng.integers(1, 6)),)
    b = np.sort(rng.normal(size=shape) if rng.random() < .7 else rng.integers(0, 5, size=shape) * 1.0, axis=-1)
    nk = b.size // shape[-1]
    k = int(rng.integers(0, b.size + 1))
    el = k / nk
    ef = dm.naive_fermi_energy(b, el)
    c.key(b, k)
    eps = 1e-12 * np.abs(b).max()
    c.ok(np.sum(b < ef - eps) <= k <= np.sum(b <= ef + eps) or (k in (0, b.size)), "naive-level-splits-states", f"{np.sum(b<ef)} {k} {np.sum(b<=ef)}")
    c.ok(b.min() - eps <= ef <= b.max() + eps, "naive-level-in-range")
    # and it approximates the smeared one
    if rng.random() < .5:
        m, A, d, _, sm = make(rng, own=False, smearing="cubes", N=12)
        if flat(d):
            raise Skip()
        nb = d.model_bandcount()
        el = filling(rng, nb)
        x = (np.arange(24) + .5) / 24
        kk = np.stack(np.meshgrid(x, x, x, indexing="ij"), -1).reshape(-1, 3)
        ef = dm.naive_fermi_energy(m(kk), el)
        c.close(d.states_below(ef), el, "sampled-and-smeared-level-agree", rtol=0, atol=.12 * nb)
