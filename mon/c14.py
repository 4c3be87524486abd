"""C14: cell-cut volumes are the exact geometry of linear interpolation."""
import numpy as np
from .core import workload
from . import cutgeom as G
from tight_binding_redweasel import smearing as S


def gradients(rng, n):
    """hostile gradients: generic, axis-parallel, planar, diagonal, nearly so, of any magnitude"""
    g = rng.normal(size=(n, 3))
    kind = rng.integers(0, 8, n)
    for i in range(n):
        k = kind[i]
        if k == 1:
            g[i, rng.permutation(3)[:2]] = 0
        elif k == 2:
            g[i, rng.integers(3)] = 0
        elif k == 3:
            g[i] = g[i, 0] * rng.choice([-1, 1], 3)
        elif k == 4:
            a, b = rng.permutation(3)[:2]
            g[i, a] = g[i, b]
        elif k == 5:
            g[i, rng.integers(3)] *= 10.0**rng.uniform(-8, -1)
        elif k == 6:
            g[i, 2] = g[i, 0] + g[i, 1]
        elif k == 7:
            g[i] = np.round(g[i] * 2) / 2
    g *= 10.0**rng.choice([0.0, 0.0, -6.0, -3.0, 2.0, 5.0], size=(n, 1))
    return g[rng.permutation(n)]


def levels(rng, corners):
    """levels inside, outside, at the vertices and at the centre of the cells"""
    lo, hi = corners.min(-1), corners.max(-1)
    n = len(lo)
    t = rng.uniform(-0.2, 1.2, n)
    a = lo + t * (hi - lo)
    k = rng.integers(0, 6, n)
    a = np.where(k == 1, (lo + hi) / 2, a)
    a = np.where(k == 2, corners[np.arange(n), rng.integers(corners.shape[1], size=n)], a)
    return a


@workload("C14", quick=40, thorough=400)
def cube(c, rng):
    n = 4000
    g = gradients(rng, n)
    norm = np.linalg.norm(g, axis=1)
    g, norm = g[norm > 0], norm[norm > 0]
    n = len(g)
    kinks = G.cube_kinks(g)
    a0 = levels(rng, kinks)
    args = g.T.copy()
    pc = S.cube_precomp(*args)
    c.ok(np.array_equal(args, g.T), "cube-inputs-unchanged")
    a_in = a0.copy()
    vol = S.cube_cut_volume(a0, *pc)
    dvol = S.cube_cut_dvolume(a0, *pc)
    vol2, dvol2 = S.cube_cut_volume_dvolume(a0, *pc)
    c.ok(np.array_equal(a_in, a0), "cube-inputs-unchanged")
    c.event("cubes cut", n)
    c.key(g[:50], a0[:50])
    exact = G.cube_volume(a0, g)
    floored = np.min(np.abs(g), 1) < 1e-3 * norm
    err = np.abs(vol - exact)
    c.ok(np.all(err <= np.where(floored, 1e-4, 1e-7)), "cube-volume-exact", f"worst {np.max(err)}", g=g[np.argmax(err)], a0=a0[np.argmax(err)], got=vol[np.argmax(err)], exact=exact[np.argmax(err)])
    c.close(vol2, vol, "cube-combined-volume", rtol=0, atol=2e-7)
    c.close(dvol2 * norm, dvol * norm, "cube-combined-density", rtol=0, atol=2e-6)
    c.ok(np.all((vol >= -1e-7) & (vol <= 1 + 1e-7)), "cube-volume-in-range", f"{vol.min()} {vol.max()}")
    c.ok(np.all(dvol >= -1e-6 / norm), "cube-density-nonnegative", f"{(dvol*norm).min()}")
    lo, hi = kinks.min(1), kinks.max(1)
    below, above = a0 < lo - 2e-4 * norm, a0 > hi + 2e-4 * norm
    c.ok(np.all(np.abs(vol[below]) < 1e-9) and np.all(np.abs(vol[above] - 1) < 1e-9), "cube-outside-range")
    c.ok(np.all(dvol[below | above] * norm[below | above] < 1e-9), "cube-density-outside-range")
    dist = np.min(np.abs(a0[:, None] - kinks), 1) / norm
    ex_d = G.cube_density(a0, g) * norm
    far = dist > 1e-3
    e = np.abs(dvol * norm - ex_d)
    c.ok(np.all(e[far] < 1e-3) and np.all(e[~floored] < 1e-4), "cube-density-exact", f"worst {e[far].max() if far.any() else 0} {e[~floored].max()}")
    # monotone trace of one cell over many levels, including all of its vertices
    for i in rng.integers(n, size=6):
        lev = np.sort(np.concatenate([np.linspace(lo[i] - .1 * norm[i], hi[i] + .1 * norm[i], 200), kinks[i]]))
        gi = [np.full(len(lev), x) for x in g[i]]
        v = S.cube_cut_volume(lev, *S.cube_precomp(*gi))
        c.ok(np.all(np.diff(v) >= -1e-7), "cube-volume-monotone", f"{np.diff(v).min()}", g=g[i])
        # a point symmetric cell fills point symmetrically
        w = S.cube_cut_volume(-lev, *S.cube_precomp(*gi))
        c.close(v + w, np.ones(len(lev)), "cube-complement", rtol=0, atol=1e-6)
    # cells without gradient are steps
    z = np.zeros(4)
    v = S.cube_cut_volume(np.array([-1.0, -1e-9, 1e-9, 1.0]), *S.cube_precomp(z, z, z))
    c.close(v, [0, 0, 1, 1], "cube-flat-step", rtol=0, atol=1e-9)


@workload("C14", quick=40, thorough=300)
def cube_area(c, rng):
    n = 300
    g = gradients(rng, n)
    norm = np.linalg.norm(g, axis=1)
    g, norm = g[norm > 0], norm[norm > 0]
    kinks = G.cube_kinks(g)
    a0 = levels(rng, kinks)
    area, com = S.cube_cut_area_com(a0, *S.cube_precomp(*g.T.copy()), *g.T.copy())
    c.key(g[:50], a0[:50])
    dist = np.min(np.abs(a0[:, None] - kinks), 1) / norm
    floored = np.min(np.abs(g), 1) < 1e-3 * norm
    for i in range(len(g)):
        if dist[i] < 3e-3:
            continue
        P = G.cube_polygon(a0[i], g[i])
        if P is None:
            c.ok(abs(area[i]) < 1e-6, "cube-area-outside", g=g[i], a0=a0[i], got=area[i])
            continue
        A, x = G.polygon_area_com(P)
        c.ok(abs(area[i] - A) < (1e-3 if floored[i] else 1e-6), "cube-area-exact", f"{area[i]} {A}", g=g[i], a0=a0[i])
        if A > 0.02:
            c.ok(np.max(np.abs(com[i] - x)) < (2e-2 if floored[i] else 1e-4), "cube-com-exact", f"{com[i]} {x}", g=g[i], a0=a0[i])


@workload("C14", quick=40, thorough=400)
def tetra(c, rng):
    n = 4000
    v = rng.normal(size=(n, 4))
    kind = rng.integers(0, 7, n)
    v[kind == 1] = np.round(v[kind == 1])
    v[kind == 2, 1] = v[kind == 2, 3]
    v[kind == 3, :2] = v[kind == 3, 2:]
    v[kind == 4, 1] = v[kind == 4, 2] + 1e-7 * rng.normal(size=np.sum(kind == 4))
    v[kind == 5, 3] *= 30
    v = np.array([r[rng.permutation(4)] for r in v])
    v = v[np.ptp(v, axis=1) > 0]
    level = levels(rng, v)
    v *= (s := 10.0**rng.choice([0, 0, -5, 3]))
    level = level * s
    width = np.ptp(v, axis=1)
    vol = S.tetra_cut_volume(*(level - v.T)) * 6
    dvol = S.tetra_cut_dvolume(*(level - v.T)) * 6
    c.key(v[:50], level[:50])
    c.event("tetrahedra cut", len(v))
    ex = G.tetra_fraction(v - level[:, None])
    exd = G.tetra_density(v - level[:, None])
    c.ok(np.all(np.abs(vol - ex) < 2e-6), "tetra-volume-exact", f"{np.abs(vol-ex).max()}", v=v[np.argmax(np.abs(vol - ex))], level=level[np.argmax(np.abs(vol - ex))])
    c.ok(np.all((vol >= -1e-6) & (vol <= 1 + 1e-6)), "tetra-volume-in-range")
    # the density may jump at the edges of its support
    sv = np.sort(v, axis=1)
    away = np.min(np.abs(level[:, None] - v), 1) > 1e-3 * width
    near = np.min(np.abs(np.diff(sv, axis=1)) + (np.diff(sv, axis=1) == 0) * width[:, None], 1) < 1e-5 * width
    e = np.abs(dvol - exd) * width
    c.ok(np.all(e[away & ~near] < 1e-3), "tetra-density-exact", f"{e[away & ~near].max()}")
    c.ok(np.all(dvol * width >= -1e-3), "tetra-density-nonnegative", f"{(dvol*width).min()}")
    out = (level < sv[:, 0]) | (level > sv[:, 3])
    c.ok(np.all(e[out] < 1e-5) and np.all(np.abs(vol - (level > sv[:, 3]))[out] < 1e-6), "tetra-outside-range")
    # the vertices of a tetrahedron have no order
    p = rng.permutation(4)
    c.close(S.tetra_cut_volume(*(level - v[:, p].T)) * 6, vol, "tetra-vertex-order", rtol=0, atol=2e-6)
    for i in rng.integers(len(v), size=6):
        lev = np.sort(np.concatenate([np.linspace(sv[i, 0] - .1 * width[i], sv[i, 3] + .1 * width[i], 200), v[i]]))
        t = S.tetra_cut_volume(*(lev[None, :] - v[i][:, None])) * 6
        c.ok(np.all(np.diff(t) >= -2e-6), "tetra-volume-monotone", f"{np.diff(t).min()}", v=v[i])
    # six tetrahedra fill a cube
    a = rng.normal(size=(8, 500)) * s
    if rng.random() < .3:
        a = np.round(a / s) * s
    steep = np.min([np.ptp(a[list(t)], axis=0) for t in G.TETRAS], 0) > 0  # a constant tetrahedron at the level is not defined
    c.close(S.cube_tetra_cut_volume(-a)[steep], G.cube_tetra_fraction(a)[steep], "cube-of-tetras-volume", rtol=0, atol=2e-6)
    ok = np.min(np.abs(a), 0) > 1e-3 * s
    c.close((S.cube_tetra_cut_dvolume(-a) * s)[ok], (G.cube_tetra_density(a) * s)[ok], "cube-of-tetras-density", rtol=1e-3, atol=1e-3)


@workload("C14", quick=20, thorough=100)
def sphere(c, rng):
    n = 3000
    g = gradients(rng, n)
    norm = np.linalg.norm(g, axis=1)
    g, norm = g[norm > 0], norm[norm > 0]
    r = (3 / (4 * np.pi))**(1 / 3)
    a0 = norm * r * rng.uniform(-1.3, 1.3, len(g))
    vol, dvol = S.unit_sphere_cut(a0, *g.T)
    c.key(g[:50], a0[:50])
    h = np.clip(a0 / norm, -r, r)
    c.close(vol, np.pi * (r**2 * h - h**3 / 3 + 2 * r**3 / 3), "sphere-volume-exact", rtol=0, atol=1e-8)
    c.close(dvol * norm, np.pi * (r**2 - h**2), "sphere-density-exact", rtol=0, atol=1e-6)


def lattice(rng):
    A = rng.normal(size=(3, 3)) + 2 * np.eye(3)
    if rng.random() < .3:
        A = np.diag(rng.uniform(1, 4, 3))
    if rng.random() < .3:
        A = A[:, [1, 0, 2]]
    return A


def field(rng):
    """a smooth periodic function of crystal coordinates and its crystal gradient"""
    R = rng.integers(-2, 3, size=(4, 3))
    a, ph = rng.normal(size=4), rng.uniform(0, 2 * np.pi, 4)

    def f(x):
        return np.cos(2 * np.pi * (x @ R.T) + ph) @ a

    def grad(x):
        return -2 * np.pi * (np.sin(2 * np.pi * (x @ R.T) + ph) * a) @ R
    return f, grad


@workload("C14", quick=50, thorough=500)
def grid_methods(c, rng):
    wrap = bool(rng.integers(2))
    A = lattice(rng)
    n = 2 * rng.integers(1, 4, 3)
    off = rng.choice([0.0, -0.5])
    ax = [np.arange(m + (0 if wrap else 1)) / m + off for m in n]
    x = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    f, grad = field(rng)
    linear = (not wrap) and rng.random() < .4
    gl, cl = rng.normal(size=3), rng.normal()
    vals = x @ gl + cl if linear else f(x)
    pos = x @ np.linalg.inv(A)
    B = np.linalg.inv(A).T
    before = pos.copy(), vals.copy()
    corn = G.corners(vals, wrap)
    a0, g = G.linear_fit(corn)
    norm = np.linalg.norm(g, axis=-1)
    methods = dict(cubes=S.CubesSmearing(pos, A, vals, wrap=wrap), tetras=S.TetraSmearing(vals, wrap, B),
                   spheres=S.SphereSmearing(pos, B, vals, wrap=wrap), extra=S.ExtraCubesSmearing(pos, A, vals, wrap=wrap))
    c.key(vals, wrap)
    lo, hi = vals.min(), vals.max()
    lev = np.concatenate([np.linspace(lo, hi, 12), [lo - 1e-3 - .2 * (hi - lo), hi + 1e-3 + .2 * (hi - lo)], rng.uniform(lo, hi, 4)])
    flat = 1e-12 * (hi - lo) + 1e-12
    for name, m in methods.items():
        trace = []
        for e in np.sort(lev):
            v, d = m.volume(e), m.dvolume(e)
            v2, d2 = m.volume_dvolume(e)
            sc = max(hi - lo, 1e-3)
            c.close(v2, v, f"{name}-combined-volume", rtol=0, atol=1e-6)
            c.close(d2 * sc, d * sc, f"{name}-combined-density", rtol=1e-5, atol=1e-5)
            trace.append(np.mean(v))
            if name == "extra":
                continue
            c.ok(v.shape == corn.shape[1:] and d.shape == corn.shape[1:], f"{name}-one-value-per-cell", f"{v.shape} {corn.shape}")
            c.ok(np.all((v > -1e-6) & (v < 1 + 1e-6)) and np.all(d * sc > -1e-3), f"{name}-in-range")
            ok = norm > flat
            # only cells whose gradient is well defined can be judged
            if name == "cubes":
                c.close(v[ok], G.cube_volume(e - a0, g)[ok], "cubes-cell-volume", rtol=0, atol=1e-4)
            elif name == "tetras":
                w = np.ptp(corn, axis=0)
                ok = w > flat
                c.close(v[ok], G.cube_tetra_fraction(corn - e)[ok], "tetras-cell-volume", rtol=0, atol=1e-5)
            else:
                r = (3 / (4 * np.pi))**(1 / 3)
                h = np.clip((e - a0[ok]) / norm[ok], -r, r)
                c.close(v[ok], np.pi * (r**2 * h - h**3 / 3 + 2 * r**3 / 3), "spheres-cell-volume", rtol=0, atol=1e-7)
        c.close(trace[0], 0, f"{name}-empty-below", rtol=0, atol=1e-9)
        c.close(trace[-1], 1, f"{name}-full-above", rtol=0, atol=1e-9)
        if name != "extra":
            c.ok(np.all(np.diff(trace) > -1e-7), f"{name}-monotone")
    if linear and np.min(np.abs(gl)) > 1e-2:
        # all polyhedral methods are exact for linear data
        for e in rng.uniform(lo, hi, 4):
            exact = G.cube_volume(e - a0, g)
            c.close(methods["cubes"].volume(e), exact, "linear-cubes", rtol=0, atol=1e-6)
            c.close(methods["tetras"].volume(e), exact, "linear-tetras", rtol=0, atol=1e-6)
            tot = G.cube_volume(e - (gl @ (off + np.ones(3) / 2) + cl), gl)
            for name in ("cubes", "tetras", "extra"):
                c.close(np.mean(methods[name].volume(e)), tot, f"linear-total-{name}", rtol=0, atol=1e-5)
    # the extrapolated method combines two resolutions
    if np.all(n >= 2) and wrap:
        coarse = S.CubesSmearing(pos[::2, ::2, ::2], A, vals[::2, ::2, ::2], wrap=True) if np.all(n >= 4) else None
        if coarse is not None:
            for e in rng.uniform(lo, hi, 3):
                c.close(np.mean(methods["extra"].volume(e)), (4 * np.mean(methods["cubes"].volume(e)) - np.mean(coarse.volume(e))) / 3, "extra-is-extrapolated", rtol=0, atol=1e-6)
    c.ok(np.array_equal(before[0], pos) and np.array_equal(before[1], vals), "grid-inputs-unchanged")


@workload("C14", quick=30, thorough=200)
def given_gradients(c, rng):
    """cubes and spheres with gradients supplied in reciprocal space"""
    A = lattice(rng)
    n = rng.integers(2, 6, 3)
    x = np.stack(np.meshgrid(*[np.arange(m) / m - .5 for m in n], indexing="ij"), -1)
    f, grad = field(rng)
    vals, gc = f(x), grad(x)
    pos = x @ np.linalg.inv(A)
    gk = gc @ A.T  # dE/dk_i = sum_j dE/dc_j A_ij with c = k A
    B = np.linalg.inv(A).T
    cubes = S.CubesSmearing(pos, A, vals, grads=gk, wrap=True)
    spheres = S.SphereSmearing(pos, B, vals, grads=gk, wrap=True)
    c.key(vals, A)
    cell = abs(np.linalg.det(B)) / np.prod(n)
    r = (3 / (4 * np.pi) * cell)**(1 / 3)
    gn = np.linalg.norm(gk, axis=-1)
    sel = gn > 1e-9
    for e in np.linspace(vals.min() - 1, vals.max() + 1, 9):
        v, d = cubes.volume_dvolume(e)
        c.close(v[sel], G.cube_volume(e - vals, gc / n)[sel], "cubes-given-gradients", rtol=0, atol=1e-4)
        c.close(cubes.volume(e), v, "cubes-combined-volume", rtol=0, atol=1e-6)
        v, d = spheres.volume_dvolume(e)
        h = np.clip((e - vals[sel]) / gn[sel], -r, r)
        c.close(v[sel], np.pi * (r**2 * h - h**3 / 3 + 2 * r**3 / 3) / cell, "spheres-given-gradients", rtol=0, atol=1e-6)
        c.close(d[sel] * gn[sel] * r, np.pi * (r**2 - h**2) / cell * r, "spheres-given-gradients-density", rtol=0, atol=1e-5)
