"""C18: Fermi-surface samples, plots and exports lie on the Fermi surface."""
import os
import warnings
import numpy as np
from .core import workload, Skip, scratch, quiet
from .dosmodels import Plain, Affine, K, Cosines, any_model, lattice
from . import models
from tight_binding_redweasel.density_of_states import DensityOfStates
from tight_binding_redweasel import fermi_surface as fs
import matplotlib
matplotlib.use("Agg")
warnings.simplefilter("ignore")
from matplotlib import pyplot as plt


def cells(n=48):
    x = (np.arange(n) + .5) / n - .5
    return np.stack(np.meshgrid(x, x, x, indexing="ij"), -1).reshape(-1, 3)


def scattered(n):
    """n^3 points of an irrational lattice in the unit cube (also resolves bands that depend on one coordinate only)"""
    p = 1.2207440846057596
    return np.outer(np.arange(n**3) + .5, [1 / p, 1 / p**2, 1 / p**3]) % 1


def residual(f, P, bi, e, A, N):
    """distance of every point to the level set of its band in units of the grid spacing (linearised)"""
    b, g = f.bands_grad(P)
    r = np.take_along_axis(b, bi[:, None], 1)[:, 0] - e
    gn = np.linalg.norm(np.take_along_axis(g, bi[:, None, None], 2)[..., 0], axis=1)
    h = np.linalg.norm(np.linalg.inv(A), axis=1).max() / N
    return np.abs(r) / (gn + 1e-2 * np.max(gn) + 1e-30) / h


def levels(rng, m):
    b = m(cells(10))
    i = int(rng.integers(b.shape[-1]))
    lo, hi = b[:, i].min(), b[:, i].max()
    return lo + (hi - lo) * rng.uniform(.15, .85)


@workload("C18", quick=100, thorough=800)
def samples(c, rng):
    m = Cosines(rng) if rng.random() < .6 else any_model(rng, 3)
    A = lattice(rng)
    f = K(m, A)
    grad = bool(rng.random() < .6)
    sm = str(rng.choice(["cubes", "cubes+"]))
    wrap = bool(rng.random() < .7)
    use = bool(sm == "cubes" and grad and wrap and rng.random() < .3)
    N = 16
    d = DensityOfStates(f if grad else Plain(f), N=N, A=A, smearing=sm, check=1e-6, wrap=wrap, use_gradients=use)
    e = levels(rng, m)
    br = np.array(d.bands_range)
    w0 = br.max() - br.min()
    if np.any(br[:, 1] - br[:, 0] < 1e-2 * w0 + 1e-6):
        raise Skip()
    crossing = [i for i in range(len(br)) if br[i, 0] < e < br[i, 1]]
    c.key(d.bands, e, sm)
    c.event(f"gradients={grad}")
    k = scattered(48)
    b, g = m.bands_grad(k)
    gc = np.linalg.norm(np.einsum("ij,njb->nib", A, g), axis=1)
    for improved in (True, False):
        P, bi, w, tot = d.fermi_surface_samples(e, improved_points=improved)
        n = len(P)
        c.ok(P.shape == (n, 3) and bi.shape == (n,) and np.shape(w) == (n,), "sample-shapes")
        c.ok(np.all(np.isfinite(P)) and np.all(np.isfinite(w)) and np.all(w > 0), "sample-finite")
        c.ok(set(bi.tolist()) <= set(crossing), "only-crossing-bands", f"{set(bi.tolist())} {crossing}")
        c.close(tot, np.sum(w), "total-is-sum-of-weights", rtol=1e-9)
        if n == 0:
            continue
        dist = residual(f, P, bi, e, A, N)
        c.ok(np.sum(w * dist) / np.sum(w) < (.15 if improved else .35), "samples-on-level-set", f"mean distance {np.sum(w*dist)/np.sum(w)} grid steps, improved={improved}")
        if grad and improved:
            c.ok(np.sum(w * dist) / np.sum(w) < .08, "samples-on-level-set")
        kc = P @ A
        c.ok(np.mean((kc > -.5 - 1.01 / N) & (kc < .5 + 1.01 / N)) > .99, "samples-in-the-cell")
        if not improved:
            # without the Newton step every sample stays inside of a cube that the level cuts
            c.ok(np.all(np.abs(kc) <= .5 + 1 / N), "samples-in-the-cell")
        Pw, biw, wg, _ = d.fermi_surface_samples(e, improved_points=improved, weight_by_gradient=True)
        c.close(Pw, P, "weights-do-not-move-points", rtol=1e-12)
        for i in crossing:
            sel = bi == i
            dl = .02 * (b[:, i].max() - b[:, i].min())
            area = np.sum(gc[np.abs(b[:, i] - e) < dl, i]) / 2 / dl / len(b)
            tol = .2 if sm == "cubes+" else .1
            amax = np.mean(gc[:, i]) / (b[:, i].max() - b[:, i].min())  # mean area over the band's levels
            c.close(np.sum(w[sel]), area, "area-elements-sum-to-area", rtol=tol, atol=(.5 if sm == "cubes+" else .35) * amax, message=f"band {i} {sm}")
            c.close(np.sum(wg[sel]) * w0, d.density_band(e, i) * w0, "area-over-gradient-is-density", rtol=.12, atol=(.5 if sm == "cubes+" else .3) * w0 / (br[i, 1] - br[i, 0]), message=f"band {i} {sm}")
        if not improved:
            c.close(np.sum(wg) * w0, d.density(e) * w0, "interpolated-area-over-gradient-is-density", rtol=.1, atol=(.3 if sm == "cubes+" else .08) * np.sum(w0 / (br[crossing, 1] - br[crossing, 0])))
        # normalisations
        _, bb, wb, tb = d.fermi_surface_samples(e, improved_points=improved, normalize="band")
        for i in set(bi.tolist()):
            c.close(np.sum(wb[bb == i]), 1.0, "band-normalised", rtol=1e-9)
            c.close(wb[bb == i] * np.sum(w[bi == i]), w[bi == i], "band-normalised", rtol=1e-9)
        _, _, wt, tt = d.fermi_surface_samples(e, improved_points=improved, normalize="total")
        c.close(wt * np.sum(w), w, "total-normalised", rtol=1e-9)
        c.close(tb, tot, "total-area-not-normalised", rtol=1e-9)
        c.close(tt, tot, "total-area-not-normalised", rtol=1e-9)
        c.note(points=n, bands=sorted(set(bi.tolist())), area=tot, smearing=sm)
    for far in (br.min() - .1 * w0, br.max() + .1 * w0):
        P, bi, w, tot = d.fermi_surface_samples(far)
        c.ok(len(P) == len(bi) == len(w) == 0 and tot == 0, "no-samples-outside-the-bands")


@workload("C18", quick=60, thorough=400)
def relations(c, rng):
    m = Cosines(rng, even=True) if rng.random() < .4 else any_model(rng, 3)
    A = lattice(rng)
    sm = str(rng.choice(["cubes", "cubes+"]))
    N = 10
    e = levels(rng, m)

    def sample(f, e, A=A, N=N, **kw):
        d = DensityOfStates(f, N=N, A=A, smearing=sm, check=False, **kw)
        return d.fermi_surface_samples(e, improved_points=False)
    base = Plain(K(m, A))
    P, bi, w, tot = sample(base, e)
    c.key(P, w)
    s, t = float(rng.uniform(.3, 3)), float(rng.normal() * 3)
    P2, bi2, w2, tot2 = sample(Affine(base, s, t), e * s + t)
    c.close(tot2, tot, "surface-of-rescaled-energies", rtol=1e-6)
    P2, bi2, w2, tot2 = sample(Affine(base, -1.0, 0.0), -e)
    c.close(tot2, tot, "surface-of-negated-energies", rtol=1e-6)
    r = float(rng.uniform(.4, 3))
    P2, bi2, w2, tot2 = sample(Plain(K(m, A * r)), e, A * r)
    c.close(tot2, tot * r, "surface-of-rescaled-lattice", rtol=1e-6)
    if len(P2) == len(P):
        c.close(P2 * r, P, "points-of-rescaled-lattice", rtol=0, atol=2e-2 * np.abs(P).max() / N)
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    P2, bi2, w2, tot2 = sample(Plain(K(m, Q @ A)), e, Q @ A)
    c.close(tot2, tot, "surface-of-rotated-lattice", rtol=1e-6)
    if len(P2) == len(P):
        c.close(P2 @ Q, P, "points-of-rotated-lattice", rtol=0, atol=2e-2 * np.abs(P).max() / N)
    P2, bi2, w2, tot2 = sample(lambda k: np.repeat(base(k), 2, axis=-1), e)
    c.close(tot2, 2 * tot, "surface-of-doubled-bands", rtol=1e-6)
    if isinstance(m, Cosines) and m.R[0].shape[0] == 3:
        A = lattice(rng, "ortho")
        base = Plain(K(m, A))
        P2, bi2, w2, tot2 = sample(base, e, A, N=6, ranges=((0, .5),) * 3, wrap=False)
        c.event("symmetric eighth")
        c.close(tot2, sample(base, e, A, N=12)[3], "surface-from-symmetric-part", rtol=1e-3)
        P2, bi2, w2, tot2 = sample(base, e, A, N=2 * N, ranges=((0, 1), (-.5, .5), (-.5, .5)))
        c.close(tot2, sample(base, e, A, N=2 * N)[3], "surface-from-shifted-cell", rtol=1e-6)


@workload("C18", quick=30, thorough=200)
def improved_weights(c, rng):
    m = Cosines(rng, gap=.2)
    d = DensityOfStates(K(m, np.eye(3)), N=16, smearing="cubes", check=1e-6)
    e = levels(rng, m)
    br = np.array(d.bands_range)
    P, bi, w, tot = d.fermi_surface_samples(e, improved_weights=True)
    c.key(P)
    if len(P) == 0:
        raise Skip()
    dist = residual(K(m, np.eye(3)), P, bi, e, np.eye(3), 16)
    c.ok(np.mean(dist) < .02, "improved-samples-on-level-set", f"{np.mean(dist)}")
    c.ok(all(br[i, 0] < e < br[i, 1] for i in set(bi.tolist())), "only-crossing-bands")
    c.ok(np.all(np.isfinite(w)) and np.all(w >= 0), "improved-weights-finite")


def mesh_model(rng, many=False):
    """-> crystal model (k directly), level"""
    if many:
        m = Cosines(rng, n=int(rng.integers(11, 14)), gap=-3.0)
        b = m(cells(8))
        lo, hi = b.min(0), b.max(0)
        cand = np.linspace(lo.min(), hi.max(), 60)[1:-1]
        n = [(np.sum((lo < x) & (hi > x)), x) for x in cand]
        e = max(n)[1]
        return m, float(e + 1e-3)
    m = Cosines(rng) if rng.random() < .6 else any_model(rng, 3)
    return m, float(levels(rng, m))


def grid_surface(m, e, N, kr):
    """(indices of bands that cut the level on the grid, values)"""
    x = np.linspace(*kr, N)
    k = np.stack(np.meshgrid(x, x, x, indexing="ij"), -1).reshape(-1, 3)
    b = np.asarray(m(k))
    return [i for i in range(b.shape[1]) if np.any(b[:, i] > e) and np.any(b[:, i] < e)], b


def on_surface(c, m, k, i, e, kr, N, mech):
    """k lies on the linearly interpolated level set: compare with the true level set to grid resolution"""
    b, g = m.bands_grad(k)
    r = np.abs(b[:, i] - e)
    gn = np.linalg.norm(g[:, :, i], axis=1)
    h = (kr[1] - kr[0]) / (N - 1)
    # next to an extremum or a crossing the curvature within a cell counts
    curv = sum(np.linalg.norm((m.bands_grad(k + x)[1] - g)[:, :, i], axis=1) for x in .5 * h * np.eye(k.shape[1]))
    dist = r / (gn + curv + .02 * gn.max() + 1e-30) / h
    c.ok(np.mean(dist) < .15 and np.quantile(dist, .9) < .5, mech, f"band {i}: mean distance {np.mean(dist):.3f} grid steps, 90% {np.quantile(dist,.9):.3f}")


def tri_area(t):
    return np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1).sum() / 2


def area_of(m, i, e, kr):
    k = kr[0] + scattered(40) * (kr[1] - kr[0])
    b, g = m.bands_grad(k)
    dl = .03 * (b[:, i].max() - b[:, i].min())
    V = (kr[1] - kr[0])**3
    gn = np.linalg.norm(g[..., i], axis=1)
    return np.sum(gn[np.abs(b[:, i] - e) < dl]) / 2 / dl * V / len(b), np.mean(gn) * V / np.ptp(b[:, i])


def k_range(rng):
    return [[-.5, .5], [0, .5], [-1.0, 1.0], [0.0, 1.0]][int(rng.integers(4))]


@workload("C18", quick=40, thorough=300)
def field(c, rng):
    m, e = mesh_model(rng, rng.random() < .2)
    shape = tuple(rng.integers(1, 6, size=rng.integers(1, 4)))
    k = rng.uniform(-1, 1, size=shape + (3,))
    b = np.asarray(m(k.reshape(-1, 3)))
    if rng.random() < .4:
        # the surface barely touches the sampled region: between the outermost two samples of a band
        i = int(rng.integers(b.shape[1]))
        x = np.sort(b[:, i])[::rng.choice([-1, 1])]
        if len(x) > 1 and x[0] != x[1]:
            e = x[0] + (x[1] - x[0]) * 10 ** rng.uniform(-4, -.3)
            c.event("pocket")
    vol, idx = fs.fermi_surface(m, e, k)
    want = [i for i in range(b.shape[1]) if b[:, i].min() < e < b[:, i].max()]
    c.key(b, e)
    c.ok(list(idx) == want and len(vol) == len(want), "field-bands", f"{idx} {want}")
    for v, i in zip(vol, idx):
        c.close(v, (b[:, i] - e).reshape(shape), "field-values", rtol=1e-12, atol=1e-12)
    far = b.max() + 1
    vol, idx = fs.fermi_surface(m, far, k)
    c.ok(len(vol) == 0 and len(idx) == 0, "no-field-above-the-bands")


@workload("C18", quick=40, thorough=300)
def export(c, rng):
    many = rng.random() < .25
    m, e = mesh_model(rng, many)
    if many:
        c.event("more bands than colours")
    kr = k_range(rng)
    N = int(rng.integers(12, 20)) * (2 if kr[1] - kr[0] > 1 else 1)
    with scratch() as top, quiet():
        name = str(rng.choice(["surface", "a b.c", "sub/fs"]))
        os.makedirs("sub")
        kw = dict(N=N, k_range=kr)
        if rng.random() < .2:
            N, kr, kw = 32, [-.5, .5], {}  # the defaults: one zone
            c.event("default region")
        fs.export_3D_fermi_surface(name, m, e, **kw)
        obj = open(name + ".obj").read().split("\n")
        mtl = open(name + ".mtl").read().split("\n")
        files = sorted(os.path.relpath(os.path.join(p, x), top) for p, _, fl in os.walk(top) for x in fl)
        c.ok(files == sorted([name + ".obj", name + ".mtl"]), "export-files", f"{files}")
        lib = [x.split(" ", 1)[1] for x in obj if x.startswith("mtllib")]
        c.ok(len(lib) == 1 and os.path.exists(os.path.join(os.path.dirname(name), lib[0])), "material-library-found", f"{lib}")
    mats = [x.split()[1] for x in mtl if x.startswith("newmtl")]
    c.ok(len(set(mats)) == len(mats) > 0, "materials-unique")
    V, groups, cur = [], {}, None
    for ln in obj:
        t = ln.split()
        if not t or t[0] in ("#", "mtllib", "o", "s"):
            continue
        if t[0] == "g":
            cur = groups.setdefault(t[1], dict(faces=[], first=len(V), mat=None))
        elif t[0] == "v":
            V.append([float(x) for x in t[1:]])
        elif t[0] == "usemtl":
            cur["mat"] = t[1]
        elif t[0] == "f":
            cur["faces"].append([int(x) for x in t[1:]])
            cur["last"] = len(V)
        else:
            c.fail("export-syntax", ln)
    V = np.array(V).reshape(-1, 3)
    idx, b = grid_surface(m, e, N, kr)
    c.key(V, e)
    c.ok([f"Band{i}" for i in idx] == list(groups), "exported-bands", f"{list(groups)} {idx}")
    c.ok(len(V) == 0 or (V.min() >= -1e-3 and V.max() <= N - 1 + 1e-3), "vertices-in-range")
    k = kr[0] + V / (N - 1) * (kr[1] - kr[0])
    for i in idx:
        gr = groups[f"Band{i}"]
        F = np.array(gr["faces"])
        c.ok(gr["mat"] in mats, "material-defined", f"{gr['mat']}")
        c.ok(F.ndim == 2 and F.shape[1] == 3 and F.min() >= gr["first"] + 1 and F.max() <= gr["last"], "face-indices-in-band", f"{F.min()} {F.max()} {gr['first']} {gr['last']}")
        c.ok(np.all((F[:, 0] != F[:, 1]) & (F[:, 1] != F[:, 2]) & (F[:, 0] != F[:, 2])), "faces-are-triangles")
        used = np.unique(F) - 1
        if np.ptp(b[:, i]) < 1e-2 * np.ptp(b) + 1e-6 or len(used) < 40:
            continue
        on_surface(c, m, k[used], i, e, kr, N, "exported-vertices-on-level-set")
        a, scale = area_of(m, i, e, kr)
        c.close(tri_area(k[F - 1]), a, "exported-area", rtol=.15, atol=.3 * scale, message=f"band {i}")
        c.event("mesh checked")
        # interior edges are shared by exactly two triangles
        E = np.sort(np.concatenate([F[:, [0, 1]], F[:, [1, 2]], F[:, [0, 2]]]), axis=1)
        u, n = np.unique(E, axis=0, return_counts=True)
        mid = V[u - 1].mean(1)
        inner = np.all((mid > 1e-2) & (mid < N - 1 - 1e-2), axis=1)
        c.ok(np.mean(n[inner] == 2) > .98, "mesh-closed-inside", f"{np.mean(n[inner]==2)}")


@workload("C18", quick=24, thorough=120, timeout=240)
def plot3d(c, rng):
    from matplotlib.colors import to_rgb
    many = rng.random() < .3
    m, e = mesh_model(rng, many)
    kr = k_range(rng)
    N = int(rng.integers(12, 18)) * (2 if kr[1] - kr[0] > 1 else 1)
    kw = dict(N=N, k_range=kr)
    if rng.random() < .15:
        N, kr, kw = 32, [-.5, .5], {}  # the defaults: one zone
        c.event("default region")
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection="3d")
        if rng.random() < .5:
            fs.plot_3D_fermi_surface_to_ax(ax, m, e, **kw)
        else:
            plt.close(fig)
            shown = []
            old = plt.show
            plt.show = lambda *a, **k: shown.append(plt.gcf())
            try:
                fs.plot_3D_fermi_surface(m, e, **kw)
            finally:
                plt.show = old
            c.ok(len(shown) == 1, "plot-shown")
            fig = shown[0]
            ax = fig.axes[0]
        idx, b = grid_surface(m, e, N, kr)
        T = []
        cols = []
        for col in ax.collections:
            faces = col._faces if hasattr(col, "_faces") else None
            vec = getattr(col, "_vec", None)
            if faces is not None and np.ndim(faces) == 3:
                T.append(np.asarray(faces, float).reshape(-1, 3, 3))
            elif vec is not None:
                T.append(np.asarray(vec)[:3].T.reshape(-1, 3, 3))
            else:
                raise Skip()
            cols.append(np.asarray(col._facecolor3d)[:, :3])
        c.key(b, e)
        c.close(ax.get_xlim(), kr, "axis-range", rtol=1e-9)
        c.close(ax.get_zlim(), kr, "axis-range", rtol=1e-9)
        if not idx:
            c.ok(not T, "nothing-drawn-for-no-surface")
            return
        T, cols = np.concatenate(T), np.concatenate(cols)
        k = T.mean(1)
        L = kr[1] - kr[0]
        c.ok(np.all(np.isfinite(T)) and T.min() >= kr[0] - .2 * L / N and T.max() <= kr[1] + .2 * L / N, "triangles-in-range", f"{T.min()} {T.max()}")
        # every triangle lies on the level set of some band; bands are assigned by the nearest level
        bb, g = m.bands_grad(k)
        gn = np.linalg.norm(g, axis=1)
        # in cells: how far the level is away (next to an extremum the curvature within a cell counts)
        cell = L / (N - 1)
        curv = sum(np.linalg.norm(m.bands_grad(k + x)[1] - g, axis=1) for x in .5 * cell * np.eye(3))
        dist = np.abs(bb - e) / (gn + curv + .02 * gn.max(0) + 1e-30) / cell
        near = np.array(idx)[np.argmin(dist[:, idx], axis=1)]
        c.ok(np.mean(dist.min(1)) < .15, "drawn-triangles-on-level-set", f"{np.mean(dist.min(1))}")
        for i in idx:
            a, scale = area_of(m, i, e, kr)
            if a < .3 * scale or np.ptp(b[:, i]) < 1e-2 * np.ptp(b) + 1e-6:
                continue
            if many:
                c.ok(np.sum(near == i) > 0, "every-band-drawn", f"band {i} of {idx}")
        tot = sum(area_of(m, i, e, kr)[0] for i in idx)
        c.close(tri_area(T) / 1.03**2, tot, "drawn-area", rtol=.15, atol=.25 * sum(area_of(m, i, e, kr)[1] for i in idx))
        # colours tell the bands apart: hue of the cycle colour of the band
        cyc = [np.array(to_rgb(x)) for x in plt.rcParams["axes.prop_cycle"].by_key()["color"]]
        if len(idx) <= len(cyc):
            dirs = np.array([x / np.linalg.norm(x) for x in cyc[:len(idx)]])
            cn = cols / (np.linalg.norm(cols, axis=1, keepdims=True) + 1e-12)
            ok = np.argmax(cn @ dirs.T, axis=1)
            sure = (np.sort(dist[:, idx], axis=1)[:, 1] > 1 if len(idx) > 1 else np.ones(len(dist), bool)) & (np.linalg.norm(cols, axis=1) > .05)
            if np.sum(sure) > 20:
                c.ok(np.mean(np.array(idx)[ok][sure] == near[sure]) > .9, "colour-of-band", f"{np.mean(np.array(idx)[ok][sure]==near[sure])}")
    finally:
        plt.close("all")


@workload("C18", quick=40, thorough=200, timeout=240)
def plot2d(c, rng):
    many = rng.random() < .2
    acc = not many and rng.random() < .4
    if acc:
        nb, H, kind = models.gen_model(rng, dim=3, nmax=3, m=1, kind=rng.choice(["generic", "real"]), count=int(rng.integers(3, 8)))
        m = models.bsm(nb, H, False, True)
        e = float(levels(rng, m))
    else:
        m, e = mesh_model(rng, many)
    kr = k_range(rng)
    N = 40
    zs = [float(x) for x in rng.uniform(-.5, .5, size=rng.integers(1, 3))]
    got = []

    def show():
        got.append([[np.asarray(p.vertices) for p in col.get_paths()] for col in plt.gca().collections])
        got[-1] = (got[-1], plt.gca().get_xlim(), plt.gca().get_ylim())
        plt.close("all")
    try:
        plt.figure()
        kw = dict(z=zs, N=N, k_range=kr, accelerate=acc)
        if not acc and rng.random() < .15:
            zs, N, kr, kw = [0.0, .5], 50, [-.5, .5], {}  # the defaults: two planes of one zone
            c.event("default region")
        fs.plot_2D_fermi_surface(m, e, show=show, **kw)
        c.ok(len(got) == len(zs), "one-plot-per-plane")
        x = np.linspace(*kr, N)
        for z, (cols, xl, yl) in zip(zs, got):
            c.close([xl, yl], [kr, kr], "plane-axis-range", rtol=1e-9)
            k = np.stack(np.meshgrid(x, x, [z], indexing="ij"), -1).reshape(-1, 3)
            b = np.asarray(m(k))
            idx = [i for i in range(b.shape[1]) if b[:, i].min() < e < b[:, i].max()]
            c.key(b, e)
            h = (kr[1] - kr[0]) / (N - 1)
            if not acc:
                c.ok(len(cols) == len(idx), "one-contour-per-crossing-band", f"{len(cols)} {idx}")
            for j, paths in enumerate(cols):
                pts = np.concatenate(paths) if paths else np.zeros((0, 2))
                if len(pts) == 0:
                    continue
                kk = np.concatenate([pts, np.full((len(pts), 1), z)], axis=1)
                bb, g = m.bands_grad(kk)
                gn = np.linalg.norm(g[:, :2], axis=1)
                dist = np.abs(bb - e) / (gn + .05 * gn.max(0) + 1e-30) / h
                if acc:
                    c.ok(np.mean(dist.min(1)) < .3, "contour-on-level-set", f"{np.mean(dist.min(1))}")
                else:
                    i = idx[j]
                    if np.ptp(b[:, i]) > 1e-2 * np.ptp(b) + 1e-6:
                        c.ok(np.mean(dist[:, i]) < .35, "contour-on-level-set", f"band {i} {np.mean(dist[:, i])}")
            if acc and idx:
                # every band that clearly crosses shows up near its own level set
                for i in idx:
                    near = np.abs(b[:, i] - e) < .02 * np.ptp(b[:, i])
                    other = np.min(np.abs(np.delete(b, i, 1) - e), axis=1) if b.shape[1] > 1 else np.full(len(b), np.inf)
                    pick = k[near & (other > .2 * np.ptp(b[:, i]))]
                    pts = np.concatenate([p for paths in cols for p in paths] or [np.full((1, 2), 99.0)])
                    if len(pick) > 10:
                        dd = np.min(np.linalg.norm(pick[:, None, :2] - pts[None], axis=-1), axis=1)
                        c.ok(np.quantile(dd, .5) < 3 * h, "accelerated-contour-complete", f"band {i} {np.quantile(dd,.5)/h}")
        c.event("accelerated" if acc else "banded")
    finally:
        plt.close("all")
