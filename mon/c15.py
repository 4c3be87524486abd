"""C15: density of states conserves states."""
import numpy as np
from .core import workload, Skip
from . import cutgeom as G
from .dosmodels import K, Plain, Affine, Cosines, any_model, lattice, grid
from tight_binding_redweasel.density_of_states import DensityOfStates

SMEAR = ["cubes", "tetras", "spheres", "cubes+"]


def make(rng, m, A, N=None, smearing=None, **kw):
    smearing = smearing or str(rng.choice(SMEAR))
    N = N or int(rng.integers(3, 9))
    if smearing == "cubes+":
        N += N % 2
    return DensityOfStates(m, N=N, A=A, smearing=smearing, check=1e-6, **kw), N, smearing


def levels(rng, d, n=40):
    edges = np.array([e for r in d.bands_range for e in r])
    w = edges.max() - edges.min() + 1e-9
    e = np.concatenate([edges, rng.uniform(edges.min() - .1 * w, edges.max() + .1 * w, n), rng.choice(edges, 6) + rng.normal(size=6) * 1e-3 * w])
    return np.sort(e), w


def oracle(d, smearing, bands, wrap, e, i):
    """independent per-band state count and density at level e from the sampled grid (None where not applicable)"""
    v = bands[..., i]
    c = G.corners(v, wrap)
    a0, g = G.linear_fit(c)
    if smearing == "cubes":
        return np.mean(G.cube_volume(e - a0, g)), np.mean(G.cube_density(e - a0, g))
    if smearing == "tetras":
        return np.mean(G.cube_tetra_fraction(c - e)), np.mean(G.cube_tetra_density(c - e))
    if smearing == "spheres":
        r = (3 / (4 * np.pi))**(1 / 3)
        n = np.linalg.norm(g, axis=-1) + 1e-50
        h = np.clip((e - a0) / n, -r, r)
        return np.mean(np.pi * (r**2 * h - h**3 / 3 + 2 * r**3 / 3)), np.mean(np.pi * (r**2 - h**2) / n)
    f = np.mean(G.cube_volume(e - a0, g)), np.mean(G.cube_density(e - a0, g))
    c2 = G.corners(v[::2, ::2, ::2], wrap)
    a0, g = G.linear_fit(c2)
    q = np.mean(G.cube_volume(e - a0, g)), np.mean(G.cube_density(e - a0, g))
    return (4 * f[0] - q[0]) / 3, (4 * f[1] - q[1]) / 3


@workload("C15", quick=120, thorough=1200)
def conservation(c, rng):
    m0 = any_model(rng)
    A = lattice(rng)
    m = K(m0, A)
    if rng.random() < .4:
        m = Plain(m)
    wrap = bool(rng.random() < .7)
    d, N, sm = make(rng, m, A, wrap=wrap, midpoint=bool(wrap and rng.random() < .3))
    nb = d.model_bandcount()
    kc = d.k_smpl @ A
    bands = np.asarray(m0(kc.reshape(-1, 3))).reshape(kc.shape[:-1] + (-1,))
    c.key(bands, sm)
    c.event("smearing " + sm)
    c.ok(nb == bands.shape[-1] and d.bands.shape == bands.shape, "band-count")
    c.close(d.bands, bands, "grid-bands", rtol=1e-9, atol=1e-9)
    ok_mid = [grid(N, wrap=wrap, midpoint=False), grid(N, wrap=wrap, midpoint=True)]
    c.ok(any(g.shape == kc.shape and np.allclose(g, kc, atol=1e-9) for g in ok_mid), "grid-points")
    lo, hi = bands.reshape(-1, nb).min(0), bands.reshape(-1, nb).max(0)
    br = np.array(d.bands_range)
    es, w = levels(rng, d)
    c.ok(np.all(br[:, 0] <= lo + 1e-9 * w) and np.all(br[:, 1] >= hi - 1e-9 * w), "range-contains-samples", f"{br} {lo} {hi}")
    st, prev = [], None
    slack = 1e-7
    for e in es:
        per = [d.states_below_band(e, i) for i in range(nb)]
        s = d.states_below(e)
        s2, rho2 = d.states_density(e)
        rho = d.density(e)
        rb = d.density_bands(e)
        c.close(s, np.sum(per), "states-are-band-sum", rtol=0, atol=1e-9)
        c.close(s2, s, "combined-states", rtol=0, atol=1e-6)
        c.close(rho2 * w, rho * w, "combined-density", rtol=1e-6, atol=1e-5)
        c.close(rho, np.sum(rb), "density-is-band-sum", rtol=1e-9, atol=1e-12)
        c.close(rb, [d.density_band(e, i) for i in range(nb)], "density-bands", rtol=1e-9, atol=1e-12)
        if sm != "cubes+":
            c.ok(np.all(np.array(per) >= -1e-7) and np.all(np.array(per) <= 1 + 1e-7), "band-count-in-range", f"{per}")
            c.ok(rho >= -1e-6 / w, "density-nonnegative", f"{rho}")
        for i in range(nb):
            if e < br[i, 0]:
                c.ok(per[i] == 0 and rb[i] == 0, "nothing-below-band")
            elif e > br[i, 1]:
                c.ok(per[i] == 1 and rb[i] == 0, "full-above-band")
            elif br[i, 1] - br[i, 0] > 1e-6 * w and br[i, 0] < e < br[i, 1]:
                o, orho = oracle(d, sm, bands, wrap, e, i)
                c.close(per[i], o, "band-count-is-geometric-volume", rtol=0, atol=1e-4, message=f"{sm} e={e}")
                if np.min(np.abs(bands[..., i] - e)) > 1e-4 * w:
                    c.close(rb[i] * w, orho * w, "band-density-is-geometric-density", rtol=2e-2, atol=2e-2, message=f"{sm} e={e}")
        cut = d.cut_band_indices(e)
        inside = [i for i in range(nb) if br[i, 0] < e < br[i, 1]]
        c.ok([int(i) for i in cut] == inside, "cut-bands", f"{cut} {inside}")
        c.ok(prev is None or s >= prev - slack or sm == "cubes+", "states-monotone", f"{prev} -> {s} at {e} ({sm})")
        prev = s if prev is None else max(prev, s)
        st.append(s)
    c.ok(d.states_below(br.min() - 1e-6 * w - 1e-9) == 0 and d.states_below(br.max() + 1e-6 * w + 1e-9) == nb, "conserved-total")
    c.note(smearing=sm, N=N, bands=nb, states=np.array(st))
    er = d.energy_range()
    c.close(er, (br[0, 0], br[-1, 1]), "energy-range", rtol=1e-12)
    # the curve is the same function
    n = int(rng.integers(2, 9))
    e_, s_, r_ = d.full_curve(N=n)
    c.ok(np.all(np.diff(e_) > 0) and len(e_) == len(s_) == len(r_), "curve-energies-sorted")
    c.ok(all(np.any(np.abs(e_ - x) <= 1e-9 * w) for x in br.ravel()), "curve-contains-band-edges")
    c.close(s_, [d.states_below(e) for e in e_], "curve-states", rtol=0, atol=1e-6)
    c.close(r_ * w, np.array([d.density(e) for e in e_]) * w, "curve-density", rtol=1e-6, atol=1e-5)
    c.close(d.k_resolved_density(float(np.median(bands)) + 1e-3 * w, 0.0).mean() if sm != "cubes+" else 0,
            sum(oracle(d, sm, bands, wrap, float(np.median(bands)) + 1e-3 * w, i)[1] for i in range(nb)) if sm != "cubes+" else 0, "k-resolved-sums-to-density", rtol=5e-2, atol=5e-2 / w)


@workload("C15", quick=60, thorough=500)
def density_integrates(c, rng):
    """integral of the density between two levels = difference of the state counts"""
    m0 = Cosines(rng)
    A = lattice(rng)
    d, N, sm = make(rng, K(m0, A), A, N=int(rng.integers(5, 11)), wrap=bool(rng.random() < .8))
    br = np.array(d.bands_range)
    c.key(d.bands, sm)
    edges = np.unique(br)
    for _ in range(4):
        j = int(rng.integers(len(edges) - 1))
        a, b = np.sort(rng.uniform(edges[j], edges[j + 1], 2))
        if b - a < 0.05 * (edges[-1] - edges[0]):
            continue
        n = 400
        e = a + (b - a) * (np.arange(n) + .5) / n
        rho = np.array([d.density(x) for x in e])
        integral = np.sum(rho) * (b - a) / n
        diff = d.states_below(b) - d.states_below(a)
        c.close(integral, diff, "density-integrates-to-states", rtol=2e-2, atol=4e-3, message=f"{sm} N={N}")


@workload("C15", quick=60, thorough=500)
def given_gradients(c, rng):
    """analytic gradients in the smearing: same conservation laws, independent cell volumes"""
    m0 = Cosines(rng) if rng.random() < .5 else any_model(rng, 3)
    A = lattice(rng)
    sm = str(rng.choice(["cubes", "spheres"]))
    d, N, sm = make(rng, K(m0, A), A, smearing=sm, use_gradients=True, N=int(rng.integers(3, 9)))
    kc = (d.k_smpl @ A)
    b, g = m0.bands_grad(kc.reshape(-1, 3))
    nb = b.shape[-1]
    br = np.array(d.bands_range)
    w = br.max() - br.min()
    c.key(b, sm)
    gk = np.einsum("ij,njb->nib", A, g)
    cell = 1 / abs(np.linalg.det(A)) / N**3
    r = (3 / (4 * np.pi) * cell)**(1 / 3)
    prev = 0.0
    for e in np.sort(rng.uniform(br.min() - .1 * w, br.max() + .1 * w, 30)):
        tot = d.states_below(e)
        s2, rho2 = d.states_density(e)
        c.close(s2, tot, "combined-states", rtol=0, atol=1e-6)
        c.ok(prev - 1e-7 <= tot <= nb + 1e-9 and rho2 >= -1e-6 / w, "states-monotone", f"{prev} -> {tot}")
        prev = tot
        for i in range(nb):
            p = d.states_below_band(e, i)
            if not br[i, 0] < e < br[i, 1]:
                c.ok(p == (1 if e >= br[i, 1] else 0), "outside-band")
                continue
            gn = np.linalg.norm(gk[:, :, i], axis=-1)
            if np.any(gn * r < 1e-6 * w):
                continue
            if sm == "cubes":
                o = np.mean(G.cube_volume(e - b[:, i], g[:, :, i] / N))
            else:
                h = np.clip((e - b[:, i]) / gn, -r, r)
                o = np.mean(np.pi * (r**2 * h - h**3 / 3 + 2 * r**3 / 3) / cell)
            c.close(p, o, "band-count-is-geometric-volume", rtol=0, atol=2e-4, message=sm)


def dense(m, n=48):
    x = (np.arange(n) + .5) / n
    k = np.stack(np.meshgrid(x, x, x, indexing="ij"), -1).reshape(-1, 3)
    return np.asarray(m(k))


@workload("C15", quick=48, thorough=200)
def converges(c, rng):
    """the counts are the fraction of k-space below the energy"""
    m = Cosines(rng) if rng.random() < .6 else any_model(rng, 3)
    A = lattice(rng)
    sm = str(rng.choice(SMEAR))
    grad = sm in ("cubes", "spheres") and rng.random() < .3
    wrap = bool(rng.random() < .7) or grad
    N = 16
    d = DensityOfStates(K(m, A), N=N, A=A, smearing=sm, check=1e-6, use_gradients=bool(grad), wrap=wrap, midpoint=bool(wrap and rng.random() < .3))
    b = dense(m)
    c.key(b[:50], sm)
    lo, hi = b.min(), b.max()
    for e in np.linspace(lo, hi, 9)[1:-1]:
        frac = np.mean(b < e, axis=0)
        if np.any(np.ptp(b, axis=0) <= 1e-2 * (hi - lo)):
            raise Skip()  # a step at a flat band
        for i in range(b.shape[1]):
            c.close(d.states_below_band(e, i), frac[i], "count-is-k-space-fraction", rtol=0, atol=5e-2, message=f"{sm} grad={grad}")
        c.close(d.states_below(e), frac.sum(), "count-is-k-space-fraction", rtol=0, atol=4e-2 * b.shape[1], message=sm)
    br = np.array(d.bands_range)
    c.ok(np.all(br[:, 0] <= b.min(0) + .15 * (hi - lo)) and np.all(br[:, 1] >= b.max(0) - .15 * (hi - lo)), "range-near-extrema")


@workload("C15", quick=80, thorough=600)
def metamorphic(c, rng):
    m0 = any_model(rng, 3)
    A = lattice(rng)
    base = Plain(K(m0, A))
    sm = str(rng.choice(SMEAR))
    N = 2 * int(rng.integers(2, 5))

    def dos(m, A=A, **kw):
        return DensityOfStates(m, N=N, A=A, smearing=sm, check=False, **kw)
    d = dos(base)
    br = np.array(d.bands_range)
    nb = len(br)
    w = br.max() - br.min()
    es = np.sort(rng.uniform(br.min() - .05 * w, br.max() + .05 * w, 15))
    # levels at a band edge or a kink may be rounded differently
    es = np.array([e for e in es if np.min(np.abs(d.bands - e)) > 1e-7 * w and np.min(np.abs(br - e)) > 1e-7 * w])
    if len(es) == 0 or w < 1e-6:
        raise Skip()
    S = np.array([d.states_below(e) for e in es])
    R = np.array([d.density(e) for e in es])
    c.key(d.bands, sm)
    kind = str(rng.choice(["affine", "negative", "double", "union", "shift-k", "inversion", "axes", "lattice", "mirror"]))
    c.event("relation " + kind)
    if kind == "affine":
        s, t = rng.uniform(.3, 4), rng.normal() * 5
        d2 = dos(Affine(base, s, t))
        S2 = [d2.states_below(e * s + t) for e in es]
        R2 = [d2.density(e * s + t) * s for e in es]
    elif kind == "negative":
        d2 = dos(Affine(base, -1.0, 0.0))
        S2 = [nb - d2.states_below(-e) for e in es]
        R2 = [d2.density(-e) for e in es]
    elif kind == "double":
        d2 = dos(lambda k: np.repeat(base(k), 2, axis=-1))
        S2 = [d2.states_below(e) / 2 for e in es]
        R2 = [d2.density(e) / 2 for e in es]
    elif kind == "union":
        d2 = dos(lambda k: np.concatenate([base(k), base(k) + 3 * w], axis=-1))
        S2 = [d2.states_below(e) for e in es]
        R2 = [d2.density(e) for e in es]
        c.close([d2.states_below(e + 3 * w) for e in es], nb + S, "union-counts-add", rtol=0, atol=1e-5)
    elif kind == "shift-k":
        sh = 2 * rng.integers(0, N, 3) / N
        d2 = dos(lambda k: m0((np.asarray(k) @ A) + sh))
        S2 = [d2.states_below(e) for e in es]
        R2 = [d2.density(e) for e in es]
    elif kind == "inversion":
        if sm == "cubes+":
            raise Skip()
        d2 = dos(lambda k: base(-np.asarray(k)))
        S2 = [d2.states_below(e) for e in es]
        R2 = [d2.density(e) for e in es]
    elif kind == "axes":
        p = rng.permutation(3)
        d2 = dos(lambda k: m0((np.asarray(k) @ A)[..., p]))
        S2 = [d2.states_below(e) for e in es]
        R2 = [d2.density(e) for e in es]
    elif kind == "lattice":
        A2 = lattice(rng)
        d2 = dos(Plain(K(m0, A2)), A=A2)
        S2 = [d2.states_below(e) for e in es]
        R2 = [d2.density(e) for e in es]
    else:
        # mirror-symmetric bands on an eighth of the cell
        m0 = Cosines(rng, even=True)
        base = Plain(K(m0, A))
        s2 = str(rng.choice(["cubes", "spheres"]))
        d = DensityOfStates(base, N=2 * N, A=A, smearing=s2, check=1e-6)
        d2 = DensityOfStates(base, N=N, A=A, smearing=s2, check=1e-6, ranges=((0.0, .5),) * 3, wrap=False)
        es = rng.uniform(d.bands.min(), d.bands.max(), 15)
        S = [d.states_below(e) for e in es]
        R = [d.density(e) for e in es]
        S2 = [d2.states_below(e) for e in es]
        R2 = [d2.density(e) for e in es]
        w = np.ptp(d.bands)
    c.close(S2, S, "relation-states-" + kind, rtol=0, atol=3e-4, message=sm)
    c.close(np.array(R2) * w, np.array(R) * w, "relation-density-" + kind, rtol=3e-2, atol=3e-2, message=sm)


@workload("C15", quick=100, thorough=900)
def reduced_ranges(c, rng):
    """mirror-symmetric bands need only a part of the cell: every documented way to sample the part gives the counts of the whole"""
    m = Cosines(rng, even=True)
    A = lattice(rng)
    km = K(m, A)
    N = int(rng.integers(2, 6))
    side = [(0.0, .5), (-.5, 0.0)]
    mixed = rng.random() < .3
    ranges = tuple(side[int(rng.integers(2))] if not mixed or rng.random() < .6 else (-.5, .5) for _ in range(3))
    grad = bool(rng.random() < .5)
    if grad:
        mid, wrap, sm = True, True, str(rng.choice(["cubes", "spheres"]))
    else:
        mid, wrap, sm = False, False, str(rng.choice(["cubes", "tetras", "spheres"]))
    if mixed and grad:
        sm = "cubes"
    if grad and sm == "spheres":
        A = np.diag(rng.uniform(.7, 1.5, 3))  # in an oblique cell the mirrored sphere has another gradient
        km = K(m, A)
    c.event(f"{sm} {'gradients' if grad else 'interpolated'} wrap {wrap} mixed {mixed}")
    model = km if grad else Plain(km)
    d = DensityOfStates(model, N=N, A=A, smearing=sm, check=1e-6, ranges=ranges, wrap=wrap, midpoint=mid, use_gradients=grad)
    kc = grid(N, ranges, wrap, mid)
    c.key(ranges, A, m.c, sm, wrap)
    c.ok(d.k_smpl.shape == kc.shape and np.allclose(d.k_smpl @ A, kc, atol=1e-9), "grid-points", "the sampled part of the cell is not the requested one")
    c.close(d.crystal_volume, np.prod([b - a for a, b in ranges]), "crystal-volume", rtol=1e-12)
    b, g = m.bands_grad(kc.reshape(-1, 3))
    br = np.array(d.bands_range)
    w = br.max() - br.min()
    full = None
    if not mixed and sm != "tetras":  # the diagonal of the tetrahedra is not mirrored
        full = DensityOfStates(model, N=2 * N, A=A, smearing=sm, check=1e-6, wrap=True, midpoint=mid, use_gradients=grad)
    step = np.array([(r[1] - r[0]) / N for r in ranges])
    for e in np.sort(rng.uniform(br.min() - .05 * w, br.max() + .05 * w, 10)):
        S = d.states_below(e)
        c.ok(-1e-7 <= S <= m.n + 1e-7, "count-in-range", f"{S}")
        if full is not None and np.min(np.abs(np.array(full.bands_range) - e)) > 1e-3 * w and np.min(np.abs(br - e)) > 1e-3 * w:
            c.close(S, full.states_below(e), "part-of-cell-counts-like-whole", rtol=0, atol=1e-3, message=f"{sm} grad={grad} wrap={wrap}")
        for i in range(m.n):
            if not br[i, 0] < e < br[i, 1]:
                continue
            p = d.states_below_band(e, i)
            if sm == "cubes":
                if grad:
                    o = np.mean(G.cube_volume(e - b[:, i], g[:, :, i] * step))
                else:
                    a0, gg = G.linear_fit(G.corners(b[:, i].reshape(kc.shape[:-1]), wrap))
                    o = np.mean(G.cube_volume(e - a0, gg))
            elif sm == "tetras" and not mixed:
                o = np.mean(G.cube_tetra_fraction(G.corners(b[:, i].reshape(kc.shape[:-1]), wrap) - e))
            else:
                continue
            c.close(p, o, "band-count-is-geometric-volume", rtol=0, atol=3e-4, message=f"{sm} grad={grad}")


@workload("C15", quick=16, thorough=60)
def periodicity_check(c, rng):
    """the constructor's check accepts periodic models and rejects a wrong lattice"""
    m0 = Cosines(rng)
    A = lattice(rng)
    d = DensityOfStates(K(m0, A), N=4, A=A)
    c.ok(d.model_bandcount() == m0.n, "periodic-model-accepted")
    A2 = A @ np.diag([1, 1, rng.uniform(.6, .9)])
    try:
        DensityOfStates(K(m0, A), N=4, A=A2)
        rejected = False
    except AssertionError:
        rejected = True
    c.ok(rejected, "aperiodic-model-rejected")
    c.key(A)


# the cell fractions that are added up here
from . import c14 as _c14  # noqa: E402
for _f in (_c14.cube, _c14.tetra, _c14.sphere, _c14.grid_methods, _c14.given_gradients):
    workload("C15", quick=20, thorough=150)(_f)
