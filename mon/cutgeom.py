"""Independent exact geometry of half-space cuts (oracle for C14, C15, C18). No formula is shared with the code under test."""
import numpy as np


def _F2(t, p, q):
    """P(p*u + q*v <= t), u,v ~ U(-1/2,1/2), p >= q >= 0 (arrays)"""
    s = t + (p + q) / 2
    tot = p + q
    pp = np.where(p > 0, p, 1.0)
    qq = np.where(q > 0, q, 1.0)
    r = np.where(s < q, s * s / (2 * pp * qq), np.where(s < p, (s - q / 2) / pp, 1 - (tot - s)**2 / (2 * pp * qq)))
    r = np.where(q <= 1e-13 * p, np.clip(t / pp + 0.5, 0, 1), r)
    r = np.where(p <= 0, np.where(t >= 0, 1.0, 0.0), r)
    return np.where(s <= 0, np.where(p > 0, 0.0, r), np.where(s >= tot, np.where(p > 0, 1.0, r), r))


def _f2(t, p, q):
    """density of the above"""
    s = t + (p + q) / 2
    pp = np.where(p > 0, p, 1.0)
    qq = np.where(q > 0, q, 1.0)
    r = np.where(s < q, s / (pp * qq), np.where(s < p, 1 / pp, (p + q - s) / (pp * qq)))
    r = np.where(q <= 1e-13 * p, 1 / pp, r)
    return np.where((s <= 0) | (s >= p + q), 0.0, r)


def _average(fn, a0, g):
    """integral over the third (smallest) component of fn(a0 - r*u), exact because fn is piecewise polynomial"""
    a0 = np.asarray(a0, float)
    g = np.sort(np.abs(np.asarray(g, float)), axis=-1)
    a0, r, q, p = np.broadcast_arrays(a0, g[..., 0], g[..., 1], g[..., 2])
    big = r > 1e-12 * np.where(p > 0, p, 1.0)
    rr = np.where(big, r, 1.0)
    kinks = [np.clip((a0 - s) / rr, -0.5, 0.5) for s in [-(p + q) / 2, -(p - q) / 2, (p - q) / 2, (p + q) / 2]]
    kinks = np.sort(np.stack([np.full(a0.shape, -0.5)] + kinks + [np.full(a0.shape, 0.5)]), axis=0)
    x, w = np.polynomial.legendre.leggauss(3)
    res = 0
    for i in range(len(kinks) - 1):
        lo, hi = kinks[i], kinks[i + 1]
        for xi, wi in zip(x, w):
            u = (lo + hi) / 2 + xi * (hi - lo) / 2
            res = res + fn(a0 - rr * u, p, q) * wi * (hi - lo) / 2
    return np.where(big, res, fn(a0, p, q))


def cube_volume(a0, g):
    """fraction of the unit cube centred at 0 with g.u <= a0"""
    return _average(_F2, a0, g)


def cube_density(a0, g):
    return _average(_f2, a0, g)


def cube_kinks(g):
    """values at the corners of the cube"""
    g = np.asarray(g, float)
    s = np.array([[a, b, c] for a in (-.5, .5) for b in (-.5, .5) for c in (-.5, .5)])
    return g @ s.T


_E = []
for _i in range(3):
    for _a in (-.5, .5):
        for _b in (-.5, .5):
            p0 = np.zeros(3); p1 = np.zeros(3)
            p0[_i], p1[_i] = -.5, .5
            p0[(_i + 1) % 3] = p1[(_i + 1) % 3] = _a
            p0[(_i + 2) % 3] = p1[(_i + 2) % 3] = _b
            _E.append((p0, p1))


def cube_polygon(a0, g):
    """corners (ordered) of the plane g.u = a0 inside the unit cube, or None"""
    pts = []
    for p0, p1 in _E:
        f0, f1 = g @ p0 - a0, g @ p1 - a0
        if f0 * f1 < 0:
            t = f0 / (f0 - f1)
            pts.append(p0 + t * (p1 - p0))
        elif f0 == 0:
            pts.append(p0)
        elif f1 == 0:
            pts.append(p1)
    if len(pts) < 3:
        return None
    pts = np.array(pts)
    c = pts.mean(0)
    n = g / np.linalg.norm(g)
    e1 = np.cross(n, np.eye(3)[np.argmin(np.abs(n))])
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(n, e1)
    ang = np.arctan2((pts - c) @ e2, (pts - c) @ e1)
    return pts[np.argsort(ang)]


def polygon_area_com(P):
    """area and centre of mass of a planar polygon in 3D (fan triangulation)"""
    c = P.mean(0)
    A = 0.0
    com = np.zeros(3)
    for i in range(len(P)):
        a, b = P[i], P[(i + 1) % len(P)]
        t = np.linalg.norm(np.cross(a - c, b - c)) / 2
        A += t
        com += t * (a + b + c) / 3
    return A, (com / A if A > 0 else c)


def tetra_fraction(values):
    """fraction of a tetrahedron with (linear) vertex values in the last axis that is <= 0 (Lehmann-Taut)"""
    e = np.sort(np.asarray(values, float), axis=-1)
    e1, e2, e3, e4 = np.moveaxis(e, -1, 0)

    def d(a, b):
        x = a - b
        return np.where(x > 0, x, 1.0)
    E = 0.0
    c1 = (E - e1)**3 / (d(e2, e1) * d(e3, e1) * d(e4, e1))
    c3 = 1 - (e4 - E)**3 / (d(e4, e1) * d(e4, e2) * d(e4, e3))
    x = E - e2
    c2 = 1 / (d(e3, e1) * d(e4, e1)) * ((e2 - e1)**2 + 3 * (e2 - e1) * x + 3 * x**2
                                        - (d(e3, e1) + d(e4, e2)) / (d(e3, e2) * d(e4, e2)) * x**3)
    return np.where(E <= e1, 0.0, np.where(E < e2, c1, np.where(E < e3, c2, np.where(E < e4, c3, 1.0))))


def tetra_density(values):
    """derivative of the fraction with respect to the level"""
    e = np.sort(np.asarray(values, float), axis=-1)
    e1, e2, e3, e4 = np.moveaxis(e, -1, 0)

    def d(a, b):
        x = a - b
        return np.where(x > 0, x, 1.0)
    E = 0.0
    g1 = 3 * (E - e1)**2 / (d(e2, e1) * d(e3, e1) * d(e4, e1))
    g3 = 3 * (e4 - E)**2 / (d(e4, e1) * d(e4, e2) * d(e4, e3))
    x = E - e2
    g2 = 1 / (d(e3, e1) * d(e4, e1)) * (3 * (e2 - e1) + 6 * x - 3 * (d(e3, e1) + d(e4, e2)) / (d(e3, e2) * d(e4, e2)) * x**2)
    return np.where((E <= e1) | (E >= e4), 0.0, np.where(E < e2, g1, np.where(E < e3, g2, g3)))


def corners(values, wrap):
    """corner values [8,...] of the cells of a grid, corner index bits x=1, y=2, z=4"""
    n = [s if wrap else s - 1 for s in values.shape]
    idx = [np.arange(m) for m in n]
    res = []
    for b in range(8):
        ii = [(idx[a] + ((b >> a) & 1)) % values.shape[a] for a in range(3)]
        res.append(values[np.ix_(*ii)])
    return np.array(res)


def linear_fit(c):
    """centre value and gradient per cell edge from the corner values"""
    bits = np.array([[(b >> a) & 1 for a in range(3)] for b in range(8)])
    a0 = c.mean(0)
    g = [np.mean(c[bits[:, a] == 1], 0) - np.mean(c[bits[:, a] == 0], 0) for a in range(3)]
    return a0, np.stack(g, axis=-1)


TETRAS = [(0, 7, 1, 3), (0, 7, 3, 2), (0, 7, 2, 6), (0, 7, 6, 4), (0, 7, 4, 5), (0, 7, 5, 1)]


def cube_tetra_fraction(c):
    """c: corner values minus the level"""
    return sum(tetra_fraction(np.stack([c[i] for i in t], -1)) for t in TETRAS) / 6


def cube_tetra_density(c):
    return sum(tetra_density(np.stack([c[i] for i in t], -1)) for t in TETRAS) / 6
