"""C20: k-paths and band interpolation reproduce the sampled data; named high-symmetry points."""
import itertools
import re
import warnings
import numpy as np
from .core import workload, Skip
from .c10 import gen_group
from .groups import ops_of
from tight_binding_redweasel import kpaths, Symmetry
from tight_binding_redweasel import qespresso_interface as qe
warnings.simplefilter("ignore")

NAMED = {1: ["G1d", "X1d"], 2: ["G2d", "X2d", "X12d", "M2d"], 3: ["G", "O", "X2", "K", "L", "W", "U", "X", "M", "R", "H", "H1", "N", "P"]}
# positions as given by the Brillouin zones of the cubic lattices (units of 2pi/a), independent of the dict in the library
POS = {"G": (0, 0, 0), "O": (0, 0, 0), "X2": (0, 1, 0), "K": (.75, .75, 0), "L": (.5, .5, .5), "W": (.5, 1, 0), "U": (.25, 1, .25), "X": (0, .5, 0),
       "M": (.5, .5, 0), "R": (.5, .5, .5), "H": (1, 0, 0), "H1": (0, 1, 0), "N": (.5, .5, 0), "P": (.5, .5, .5), "G2d": (0, 0), "X2d": (0, .5),
       "X12d": (.5, 0), "M2d": (.5, .5), "G1d": (0,), "X1d": (.5,)}
CENTERS = {"G", "O", "G2d", "G1d"}


def gen_path(c, rng, d=None):
    """a random KPath with its specification [(point, name or None, N)]"""
    d = d or int(rng.choice([1, 2, 3, 3]))
    own = {f"Q{i}": (rng.normal(size=d), f"q$_{i}$") for i in range(4)} if rng.random() < .3 else None

    def pick():
        r = rng.random()
        if own and r < .5:
            n = f"Q{rng.integers(4)}"
            return n, own[n][0], own[n][1]
        if not own and r < .6:
            n = str(rng.choice(NAMED[d]))
            return n, np.array(POS[n], float), kpaths.points[n][1]
        p = np.round(rng.normal(size=d), int(rng.integers(1, 6))) if r < .9 else rng.integers(-2, 3, size=d)
        return [tuple(p.tolist()), p.tolist(), p][int(rng.integers(3))], np.asarray(p, float), None
    n = int(rng.integers(1, 9))
    kw = {"points": own} if own else {}
    spec = []
    arg, pos, label = pick()
    name = None if rng.random() < .6 else "start"
    if rng.random() < .3:
        more = [pick() for _ in range(int(rng.integers(1, 4)))]
        arg = [arg] + [m[0] for m in more]
        if rng.random() < .5:
            arg = tuple(arg)
        c.event("start:list")
        spec = [(pos, name or label, None)] + [(m[1], m[2], 32) for m in more]
    else:
        c.event("start:" + type(arg).__name__)
        spec = [(pos, name or label, None)]
    path = kpaths.KPath(arg, name, **kw) if rng.random() < .7 or name is None else kpaths.KPath(arg, name=name, **kw)
    for i in range(n):
        arg, pos, label = pick()
        name = None if rng.random() < .7 else f"p{i}"
        N = int(rng.choice([1, 1, 2, 3, 5, 32, 100]))
        if N == 32 and rng.random() < .5:
            r = path.to(arg) if name is None else path.to(arg, name)
        else:
            r = path.to(arg, name, N=N) if name is None else path.to(arg, name, N)
        c.ok(r is path, "to-returns-path")
        spec.append((pos, name or label, N))
    return path, spec, d


def judge_path(c, path, spec, d):
    k = np.array(path, dtype=float)
    n = 1 + sum(s[2] for s in spec[1:])
    c.ok(k.shape == (n, d), "point-count", f"{k.shape} {n}")
    c.ok(len(path) == n and path.dim() == d, "sequence")
    expect = [spec[0][0][None]]
    corner = [0]
    for (a, _, _), (b, _, N) in zip(spec[:-1], spec[1:]):
        t = np.arange(1, N + 1)[:, None] / N
        expect.append(a + t * (b - a))
        corner.append(corner[-1] + N)
    expect = np.concatenate(expect)
    c.close(k, expect, "evenly-spaced-segments", rtol=1e-12, atol=1e-13)
    c.ok(list(path.indices) == corner, "corner-indices")
    c.close(k[corner], np.array([s[0] for s in spec]), "corners-in-order", rtol=1e-12, atol=1e-13)
    c.close(np.array([path[i] for i in range(n)], float), k, "sequence", rtol=0)
    c.close(np.array(list(path), float), k, "sequence", rtol=0)
    x = np.asarray(path.x())
    c.ok(x.shape == (n,) and x[0] == 0, "arc-length-start")
    step = np.linalg.norm(np.diff(expect, axis=0), axis=1)
    c.close(x, np.concatenate([[0], np.cumsum(step)]), "arc-length", rtol=1e-10, atol=1e-12)
    c.ok(np.all(np.diff(x) >= 0), "arc-length-monotone")
    sx = np.asarray(path.sym_x())
    c.ok(len(sx) == len(spec), "label-count")
    c.close(sx, x[corner], "labels-at-corners", rtol=1e-10, atol=1e-12)
    names = path.sym_x_names()
    c.ok(len(names) == len(spec), "label-count")
    for got, (pos, want, _) in zip(names, spec):
        if want is not None:
            c.ok(got == want, "label-text", f"{got} {want}")
        else:
            num = [float(v) for v in re.findall(r"[-+.0-9e]+", got)]
            c.close(np.array(num), pos, "label-position", atol=6e-4 + 6e-8 * np.abs(pos).max(), rtol=1e-6)


@workload("C20", quick=600, thorough=8000)
def paths(c, rng):
    path, spec, d = gen_path(c, rng)
    c.key([s[0] for s in spec], [s[2] for s in spec])
    judge_path(c, path, spec, d)
    if d == 3:
        s = str(path).strip().split("\n")
        c.ok(s[0].split() == ["K_POINTS", "{tpiba_b}"], "qe-string-header")
        c.ok(int(s[1]) == len(path) == len(s) - 2, "qe-string-count")
        rows = np.array([[float(v) for v in l.split()] for l in s[2:]])
        k = np.array(path, float)
        c.ok(rows.shape == (len(path), 4), "qe-string-rows")
        # the constant factor is judged in qe_string
        f = np.sum(rows[:, :3] * k) / max(np.sum(k * k), 1e-300)
        c.close(rows[:, :3], k * f, "qe-string-points", rtol=1e-9, atol=1e-12)
        c.ok(np.any(k) <= (f > 0), "qe-string-points")


@workload("C20", quick=6, thorough=12)
def qe_string(c, rng):
    """the points dictionary is documented in units of tpiba, the string claims tpiba"""
    path, spec, d = gen_path(c, rng, 3)
    k = np.array(path, float)
    rows = np.array([[float(v) for v in l.split()] for l in str(path).strip().split("\n")[2:]])
    if np.allclose(rows[:, :3], 2 * k, rtol=1e-12, atol=1e-13) and np.any(k):
        c.ok(False, "qe-string-doubled")
    c.close(rows[:, :3], k, "qe-string-unit", rtol=1e-12, atol=1e-13)


@workload("C20", quick=4, thorough=4)
def default_paths(c, rng):
    table = [("SC_PATH", "G X M G R X"), ("FCC_PATH", "G X2 W L G K"), ("BCC_PATH", "G H P G N P"), ("DIAMOND_PATH", "L G X2 U G K"), ("SC_PATH_2D", "G2d X2d M2d G2d"), ("PATH_1D", "G1d X1d")]
    for n, pts in table:
        path = getattr(kpaths, n)
        N = 100 if n == "PATH_1D" else 32
        pts = pts.split()
        judge_path(c, path, [(np.array(POS[p], float), kpaths.points[p][1], N) for p in pts], len(POS[pts[0]]))
        c.key(n)


# ------------------------------------------------------------------ high-symmetry points

def zone(B, p, tol=1e-6):
    """(excess distance to the nearest reciprocal lattice point, dimension spanned by the equidistant ones)"""
    d = len(p)
    G = np.stack(np.meshgrid(*[np.arange(-4, 5)] * d), -1).reshape(-1, d) @ B.T
    dist = np.linalg.norm(p - G, axis=1)
    d0 = np.linalg.norm(p)
    eq = G[np.abs(dist - d0) < tol * (1 + d0)]
    return d0 - dist.min(), int(np.linalg.matrix_rank(eq, tol=1e-6)) if len(eq) else 0


KINDS = {
    "hex": dict(G=0, A=1, K=2, H=3, M=1, L=2),
    "trig<90": dict(G=0, Z=1, L=1, L1=1, F=1, X=2, P=2, P1=2, P2=2, Q=2, B=3, B1=3),
    "trig>90": dict(G=0, X=1, F=1, F1=1, L=1, Z=3, Q=3, Q1=3, P1=2, P=2),
    "bct<1": dict(G=0, X=1, M=2, N=1, Z1=3, Z=3, P=3),
    "bct>1": dict(G=0, X=1, M=1, M2=1, Z=1, N=1, N0=1, N1=1, Sig=2, S0=2, S=2, Sig1=2, S2=2, R=3, Y=3, P=3, Y1=3, GG=3, G0=3),
}
ALIAS = {"bct>1": [{"M", "Z"}, {"Sig", "S0"}, {"S", "Sig1"}, {"R", "Y"}, {"Y1", "GG"}]}


def hexagonal(a, h):
    return np.array([[a, 0, 0], [-a / 2, 3**.5 / 2 * a, 0], [0, 0, h]]).T


def bct(c):
    return np.array([[-.5, .5, c / 2], [.5, -.5, c / 2], [.5, .5, -c / 2]]).T


def rhombo(alpha):
    """three unit vectors with mutual angle alpha around z, first one in the xz plane"""
    s2 = (1 - np.cos(alpha)) * 2 / 3
    s, h = s2**.5, (1 - s2)**.5
    return np.array([[s * np.cos(t), s * np.sin(t), h] for t in (0, 2 * np.pi / 3, -2 * np.pi / 3)]).T


@workload("C20", quick=400, thorough=5000)
def points(c, rng):
    kind = str(rng.choice(list(KINDS)))
    if kind == "hex":
        a, h = rng.uniform(.3, 3, size=2)
        A = hexagonal(a, h)
        # the lattice of the distance 1/a: the spacing of the reciprocal points is 2/sqrt(3)/a, see DESIGN.md
        pts = kpaths.hexagonal_points(1 / a, 1 / h)
        par = (a, h)
    elif kind.startswith("trig"):
        al = np.deg2rad(rng.uniform(25, 87) if kind == "trig<90" else rng.uniform(92, 118))
        mx = bool(rng.random() < .5)
        A = rhombo(al)
        if mx:
            A = A[[1, 0, 2]]
            # two conventions of the sign remain, both have the mirror plane
        pts = kpaths.trigonal_points(al, mirror_x=mx) if rng.random() < .8 or mx else kpaths.trigonal_points(al)
        par = (al, mx)
        if not mx:
            c.close(qe.rhombohedral(1.0, al), A, "rhombohedral-orientation", atol=1e-12)
    else:
        cc = rng.uniform(.35, .97) if kind == "bct<1" else rng.uniform(1.03, 3.5)
        A = bct(cc)
        pts = kpaths.tetragonal_bc_points(cc)
        par = (cc,)
    c.key(kind, par)
    c.event("lattice:" + kind)
    B = np.linalg.inv(A).T
    kinds = KINDS[kind]
    c.ok(set(pts) == set(kinds), "names", f"{sorted(pts)}")
    seen = {}
    for n, (p, label) in pts.items():
        p = np.asarray(p, float)
        ex, r = zone(B, p)
        c.ok(abs(ex) < 1e-7, "inside-brillouin-zone", f"{kind}{par} {n} {p} {ex}")
        if n == "G":
            c.ok(not np.any(p), "gamma")
        else:
            c.ok(r >= 1, "on-boundary", f"{kind}{par} {n} {p}")
        c.ok(r == kinds[n], "point-kind", f"{kind}{par} {n} {p}: on the intersection of {r} independent planes, expected {kinds[n]}")
        for m, q in seen.items():
            al = any({n, m} == s for s in ALIAS.get(kind, []))
            same = np.linalg.norm(p - q) < 1e-7
            c.ok(same == al, "distinct-names", f"{kind}{par} {n} {m}")
        seen[n] = p
        c.ok(isinstance(label, str) and label, "labels")
    # center of the zone faces
    for n, p in seen.items():
        if kinds[n] == 1:
            m = np.linalg.inv(B) @ (2 * p)
            c.ok(np.abs(m - np.round(m)).max() < 1e-7 or n in (), "face-centers", f"{kind}{par} {n}")


@workload("C20", quick=2, thorough=2)
def cubic_points(c, rng):
    sc = np.eye(3)
    fcc = np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]]).T / 2
    bcc = np.array([[1, 1, 1], [-1, 1, 1], [-1, -1, 1]]).T / 2
    for A, table in [(sc, dict(X=1, M=2, R=3, G=0, O=0)), (fcc, dict(X2=1, K=2, L=1, W=3, U=2)), (bcc, dict(H=3, H1=3, N=1, P=3)),
                     (np.eye(2), dict(X2d=1, X12d=1, M2d=2, G2d=0)), (np.eye(1), dict(X1d=1, G1d=0))]:
        B = np.linalg.inv(A).T
        for n, want in table.items():
            p = np.asarray(kpaths.points[n][0], float)
            ex, r = zone(B, p)
            c.ok(abs(ex) < 1e-9, "inside-brillouin-zone", n)
            c.ok(r == want, "point-kind", n)
            c.close(p, np.array(POS[n], float), "named-position", atol=1e-12)
            c.key(n)
    c.ok(set(kpaths.points) >= set(POS), "names")
    q = kpaths.tetragonal_bc_points(1)
    c.ok(all(np.array_equal(q[n][0], POS[n]) for n in POS), "cubic-limit")


# ------------------------------------------------------------------ interpolation

class Waves:
    """real trigonometric polynomials in crystal coordinates, invariant under the operations if given (as acting on k)"""

    def __init__(self, rng, d, n, ops=None, m=1):
        self.R = rng.integers(-m, m + 1, size=(n, 3, d))
        self.a = rng.normal(size=(n, 3))
        self.p = rng.uniform(0, 6.28, size=(n, 3))
        self.ops = np.eye(d)[None] if ops is None else np.asarray(ops)
        self.c = rng.normal(size=n) * 3

    def __call__(self, k):
        k = np.asarray(k, float)
        v = 0.0
        for o in self.ops:
            v = v + np.sum(self.a * np.cos(2 * np.pi * np.einsum("...d,ntd->...nt", k @ o.T, self.R) + self.p), -1)
        return v / len(self.ops) + self.c

    def curv(self, i):
        """bound of the second derivative along crystal axis i"""
        v = 0.0
        for o in self.ops:
            q = np.einsum("ntd,de->nte", self.R, o)
            v = v + np.sum(np.abs(self.a) * (2 * np.pi * q[..., i])**2, -1)
        return v / len(self.ops)


@workload("C20", quick=250, thorough=2500)
def periodic(c, rng):
    use_sym = rng.random() < .6
    nb = int(rng.integers(1, 4))
    if use_sym:
        sym, ops, d = gen_crystal(rng)
        N = int(rng.integers(1, {1: 12, 2: 9, 3: 7}[d]))
        half = False
        if rng.random() < .3:
            half = True
        grid = (N,) * d
    else:
        d = int(rng.choice([1, 2, 3]))
        sym, ops = None, None
        hi = {1: 16, 2: 9, 3: 6}[d]
        grid = (int(rng.integers(1, hi)),) * d if rng.random() < .5 else tuple(rng.integers(1, hi, size=d).tolist())
        half = rng.random() < .5
        N = grid[0]
    shift = np.zeros(d)
    if half:
        shift = np.full(d, .5) / np.array(grid) if use_sym or rng.random() < .5 else rng.random(d) / np.array(grid)
    k = np.stack(np.meshgrid(*[(np.arange(n)) / n for n in grid], indexing="ij"), -1).reshape(-1, d) + shift
    f = Waves(rng, d, nb, ops)
    full = k
    if use_sym:
        # grid must be closed under the operations
        key = {tuple(q) for q in np.round((k % 1 - shift) * np.array(grid)).astype(int) % np.array(grid)}
        idx = {q: i for i, q in enumerate(map(tuple, np.round((k - shift) * N).astype(int) % N))}
        orb = -np.ones(len(k), int)
        for i in range(len(k)):
            if orb[i] >= 0:
                continue
            for o in ops:
                q = (o @ k[i] - shift) * N
                if np.abs(q - np.round(q)).max() > 1e-6:
                    raise Skip()
                orb[idx[tuple(np.round(q).astype(int) % N)]] = i
        reps = []
        for r in set(orb.tolist()):
            j = int(rng.choice(np.nonzero(orb == r)[0]))
            reps.append(k[j] - (np.floor(k[j] + .5) if rng.random() < .7 else 0))
        pts = np.array(reps)[rng.permutation(len(reps))]
        c.event(f"orbits:{len(reps) < len(k)}")
    else:
        pts = k[rng.permutation(len(k))]
        mode = int(rng.integers(3))
        if mode == 0:
            pts = (pts + .5) % 1 - .5
        elif mode == 1:
            pts = pts + rng.integers(-2, 3, size=pts.shape)
        c.event(f"cell-mode:{mode}")
    method = str(rng.choice(["linear", "cubic", "nearest", "slinear"]))
    data = f(pts)
    kw = {}
    if not use_sym and len(set(grid)) > 1:
        kw["grid"] = grid if rng.random() < .5 else list(grid)
    elif rng.random() < .3:
        kw["grid"] = grid
    if not (method == "cubic" and rng.random() < .5):
        kw["method"] = method
    p0, d0 = pts.copy(), data.copy()
    c.key(pts, data, method, None if ops is None else ops)
    c.event("method:" + method)
    it = kpaths.interpolate(pts.tolist() if rng.random() < .2 else pts, data, sym, **kw)
    c.ok(np.array_equal(p0, pts) and np.array_equal(d0, data), "arguments-untouched")
    sc = (np.abs(f.a).sum() + np.abs(f.c).max()) * (1e4 if method == "cubic" else 1)  # scipy solves for the spline iteratively
    c.close(it(pts), data, "through-samples", atol=1e-7 * sc)
    c.close(it(full), f(full), "through-grid", atol=1e-7 * sc)
    im = full + rng.integers(-3, 4, size=full.shape)
    c.close(it(im), f(full), "periodic-images", atol=1e-7 * sc)
    if ops is not None:
        o = ops[rng.integers(len(ops))]
        c.close(it(pts @ o.T), data, "symmetric-images", atol=1e-7 * sc)
    q = rng.uniform(-1.5, 1.5, size=(40, d))
    h = 1 / np.array(grid)
    bound = sum(f.curv(i) * h[i]**2 / 8 for i in range(d))
    v = it(q)
    c.ok(v.shape == (40, nb), "shape")
    if method in ("linear", "slinear"):
        c.ok(np.all(np.abs(v - f(q)) <= bound + 1e-7 * sc), "interpolation-error", f"{np.max(np.abs(v - f(q)) - bound)}")
    elif method == "cubic" and min(grid) >= 4:
        c.ok(np.all(np.abs(v - f(q)) <= 3 * bound + 1e-7 * sc), "interpolation-error", f"{np.max(np.abs(v - f(q)) - 3 * bound)}")
    q2 = q + rng.integers(-2, 3, size=q.shape)
    if method != "nearest":
        c.close(it(q2), v, "periodic", atol=1e-7 * sc * max(grid))


def gen_crystal(rng):
    """a point group as integer matrices acting on crystal k-points"""
    d, name, ops = gen_group(rng, integer=True)
    return make_sym(rng, ops), np.round(ops), d


def make_sym(rng, ops):
    """Symmetry object of the operations, with the inversion factored out or not"""
    ops = np.asarray(ops)
    d = ops.shape[1]
    if np.any(np.all(np.abs(ops + np.eye(d)) < 1e-9, axis=(1, 2))) and rng.random() < .5:
        keep = []
        for o in ops:
            if not any(np.abs(o + k).max() < 1e-6 for k in keep):
                keep.append(o)
        return Symmetry(np.array(keep), inversion=True)
    return Symmetry(ops)


@workload("C20", quick=150, thorough=1500)
def open_grid(c, rng):
    """not periodic: exact for data in the interpolation space, on any rectilinear spacing"""
    d = int(rng.choice([1, 2, 3]))
    lin = rng.random() < .5
    lo = 2 if lin else 4
    n = [int(x) for x in rng.integers(lo, lo + 4, size=d)]
    if rng.random() < .5:
        n = [n[0]] * d
    ax = [np.sort(rng.permutation(np.arange(4 * m))[:m] * .25 + rng.uniform(-.05, .05, size=m)) - rng.uniform(0, 3) for m in n]
    k = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, d)
    deg = 1 if lin else 3
    nb = int(rng.integers(1, 4))
    co = rng.normal(size=(deg + 1,) * d + (nb,))
    s = max(np.abs(k).max(), 1)

    def f(q):
        v = co
        P = [np.stack([(q[:, i] / s)**e for e in range(deg + 1)], -1) for i in range(d)]
        if d == 1:
            return np.einsum("ka,an->kn", P[0], co)
        if d == 2:
            return np.einsum("ka,kb,abn->kn", P[0], P[1], co)
        return np.einsum("ka,kb,kc,abcn->kn", P[0], P[1], P[2], co)
    perm = rng.permutation(len(k))
    kw = {} if len(set(n)) == 1 and rng.random() < .5 else dict(grid=tuple(n))
    it = kpaths.interpolate(k[perm], f(k[perm]), method="linear" if lin else "cubic", periodic=False, **kw)
    c.key(k, co)
    sc = (np.abs(f(k)).max() + 1) * (1 if lin else 2e5)
    c.close(it(k), f(k), "through-samples", atol=1e-8 * sc)
    q = np.stack([rng.uniform(a[0], a[-1], size=50) for a in ax], -1)
    c.close(it(q), f(q), "exact-in-space", atol=1e-7 * sc)


@workload("C20", quick=80, thorough=800)
def dense(c, rng):
    """grids much finer than the cell, handed over in any order"""
    d = int(rng.choice([1, 2, 3], p=[.4, .4, .2]))
    n = [int(x) for x in rng.integers(3, [0, 200, 16, 7][d], size=d)]
    periodic = bool(rng.random() < .4)
    if periodic:
        # one axis carries the resolution
        n = [int(rng.integers(50, 400))] + [int(x) for x in rng.integers(2, 4, size=d - 1)]
        ax = [np.arange(m) / m for m in n]
    else:
        # the sorting of the samples tells coordinates apart down to 1e-4
        ax = [rng.normal() + np.cumsum(np.exp(rng.uniform(np.log(3e-4), np.log(2e-2), size=m))) for m in n]
    k = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, d)
    f = Waves(rng, d, 2)
    perm = rng.permutation(len(k))
    it = kpaths.interpolate(k[perm], f(k[perm]), method="linear", periodic=periodic, grid=tuple(n))
    c.key(k)
    c.event(f"{d}d {'periodic' if periodic else 'open'}")
    c.close(it(k), f(k), "through-samples", atol=1e-7 * 20)
    i = [rng.integers(0, m - 1, size=30) for m in n]
    t = rng.uniform(0, 1, size=(30, d))
    q = np.stack([a[j] + s * (a[j + 1] - a[j]) for a, j, s in zip(ax, i, t.T)], -1)
    o = 0
    for corner in itertools.product([0, 1], repeat=d):
        w = np.prod([np.where(b, s, 1 - s) for b, s in zip(corner, t.T)], axis=0)
        o = o + w[:, None] * f(np.stack([a[j + b] for a, j, b in zip(ax, i, corner)], -1))
    c.close(it(q), o, "linear-between-samples", atol=1e-6 * 20)


@workload("C20", quick=60, thorough=600)
def open_symmetric(c, rng):
    """not periodic with a symmetry: the centred grid is completed by the group"""
    d = int(rng.choice([1, 2, 3]))
    name, sym = [("inversion", Symmetry.inv(d)), ("cubic", [None, Symmetry.inv(1), Symmetry.square(), Symmetry.cubic(True)][d])][int(rng.integers(2))]
    ops = ops_of(sym)
    n = int(rng.integers(4, 8))
    ax = (np.arange(n) - (n - 1) / 2) * rng.uniform(.1, .5)
    k = np.stack(np.meshgrid(*[ax] * d, indexing="ij"), -1).reshape(-1, d)
    f = Waves(rng, d, 2, ops)
    left = list(range(len(k)))
    reps = []
    seen = set()
    for i in rng.permutation(len(k)):
        if tuple(np.round(k[i], 6) + 0.0) in seen:
            continue
        reps.append(k[i])
        for o in ops:
            seen.add(tuple(np.round(o @ k[i], 6) + 0.0))
    reps = np.array(reps)
    it = kpaths.interpolate(reps, f(reps), sym, periodic=False, method=str(rng.choice(["cubic", "linear"])))
    c.key(reps, n, name)
    c.close(it(k), f(k), "through-grid", atol=1e-3 * (np.abs(f.a).sum() + 3))


@workload("C20", quick=40, thorough=400)
def sheet(c, rng):
    """a lower dimensional grid in a higher dimensional k-space"""
    d = int(rng.choice([2, 3]))
    g = int(rng.integers(1, d))
    grid = tuple(int(x) for x in rng.integers(2, 7, size=g))
    k = np.stack(np.meshgrid(*[np.arange(n) / n for n in grid], indexing="ij"), -1).reshape(-1, g)
    k = np.concatenate([k, np.broadcast_to(rng.uniform(-.4, .4, size=d - g), (len(k), d - g))], 1)
    f = Waves(rng, d, 2)
    p = rng.permutation(len(k))
    it = kpaths.interpolate(k[p], f(k[p]), method="linear", grid=grid)
    c.key(k)
    c.close(it(k[:, :g]), f(k), "through-samples", atol=1e-8 * 20)


@workload("C20", quick=100, thorough=1000)
def unstructured(c, rng):
    d = int(rng.choice([2, 3]))
    use_sym = rng.random() < .5
    sym = ops = None
    if use_sym:
        d, _, ops = gen_group(rng)
        sym = make_sym(rng, ops)
    k = rng.uniform(-.5, .5, size=(int(rng.integers(2, 20)), d))
    if use_sym and len(k) > 1:
        # no two samples may be images of each other
        im = np.einsum("oij,kj->oki", ops, k)
        dist = np.linalg.norm(im[:, :, None] - k[None, None], axis=-1) + 10 * np.eye(len(k))[None]
        if dist.min() < .02:
            raise Skip()
    b = rng.normal(size=(len(k), int(rng.integers(1, 4))))
    it = kpaths.interpolate_unstructured(k, b, sym)
    c.key(k, b)
    c.close(it(k), b, "unstructured-samples", atol=1e-12)
    allk = k if ops is None else np.concatenate([k @ o.T for o in ops])
    if ops is not None:
        o = ops[rng.integers(len(ops))]
        c.close(it(k @ o.T), b, "unstructured-images", atol=1e-12)
    q = rng.uniform(-.7, .7, size=(30, d))
    far = np.linalg.norm(q[:, None] - allk[None], axis=-1).min(1) > 2e-3
    c.ok(np.all(np.isnan(it(q)[far])), "nan-off-data")


# ------------------------------------------------------------------ plots

@workload("C20", quick=20, thorough=150)
def point_sets(c, rng):
    """any sequence of point generators leaves the named points and later calls alone"""
    before = {n: np.array(v[0], float) for n, v in kpaths.points.items()}
    calls = []
    for _ in range(int(rng.integers(2, 6))):
        kind = int(rng.integers(4))
        a = rng.uniform(.4, 2)
        f, arg = [(kpaths.tetragonal_bc_points, (a,)), (kpaths.tetragonal_bc_points, (1,)), (kpaths.hexagonal_points, (a, 1.3)), (kpaths.trigonal_points, (.6 + a / 2,))][kind]
        r = f(*arg)
        calls.append((f, arg, {n: (np.array(v[0], float), v[1]) for n, v in r.items()}))
        if kind and rng.random() < .3:
            kpaths.KPath(list(r)[0], points=r).to(list(r)[1], N=3)
    c.key([x[1] for x in calls])
    for f, arg, r in calls:
        q = f(*arg)
        c.ok(set(q) == set(r) and all(np.array_equal(q[n][0], r[n][0]) and q[n][1] == r[n][1] for n in r), "repeated-points", f"{f.__name__}{arg}")
    c.ok(set(kpaths.points) == set(before) and all(np.array_equal(kpaths.points[n][0], before[n]) for n in before), "named-points-unchanged")


@workload("C20", quick=30, thorough=250)
def plots(c, rng):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    path, spec, d = gen_path(c, rng)
    if np.min(np.diff(path.sym_x())) < 1e-6:
        raise Skip()  # matplotlib shows one text for ticks at the same place
    n = int(rng.integers(1, 6))
    f = Waves(rng, d, n)
    calls = []

    def func(k):
        calls.append(np.array(k))
        return np.sort(f(k), -1)[:, order]
    # bands in any order, some of them drawn twice
    order = np.arange(n) if rng.random() < .5 else rng.integers(0, n, size=n)
    fig = plt.figure(figsize=(4, 3))
    try:
        label = [None, "", "left", "right"][int(rng.integers(4))]
        off = int(rng.integers(0, 3))
        ylim = None if rng.random() < .5 else (-7.0, 9.0)
        r = path.plot(func, band_offset=off, label_bands=label, ylim=ylim)
        k = np.array(path, float)
        c.ok(len(calls) == 1 and np.array_equal(calls[0], k), "plot-evaluates-path")
        want = func(k)
        axes = fig.get_axes()
        lines = [l for a in axes for l in a.get_lines() if len(l.get_xdata()) == len(k) and l.get_linestyle() == "-" and len(k) > 2]
        x = np.array(path.x())
        c.key(k, n, label)
        if len(k) > 2:
            c.ok(len(lines) == n, "plot-band-count", f"{len(lines)} {n}")
            for i, l in enumerate(lines):
                c.close(np.asarray(l.get_xdata(), float), x, "plot-x", atol=1e-12)
                c.close(np.asarray(l.get_ydata(), float), want[:, i], "plot-y", atol=1e-12)
            v = [l for a in axes for l in a.get_lines() if l.get_linestyle() == "--"]
            c.close(np.array([l.get_xdata()[0] for l in v]), np.array(path.sym_x()[1:-1]), "plot-corner-lines", atol=1e-12)
        ax = axes[0]
        tick = [(a.get_xticks(), [t.get_text() for t in a.get_xticklabels()]) for a in axes]
        c.ok(any(len(t[0]) == len(spec) and np.allclose(t[0], path.sym_x()) and t[1] == list(path.names) for t in tick), "plot-ticks")
        if label in ("left", "right"):
            c.ok(r is not None and len(r) == 2, "plot-label-axes")
            edge = want[0 if label == "left" else -1]
            got = {}
            for a in [r[0] if label == "left" else r[1]]:
                for y, t in zip(a.get_yticks(), a.get_yticklabels()):
                    if re.fullmatch(r"[0-9,\-]+", t.get_text()):
                        for part in t.get_text().split(","):
                            lo, _, hi = part.partition("-")
                            for b in range(int(lo), int(hi or lo) + 1):
                                got.setdefault(b, []).append(y)
                if got:
                    break
            lim = axes[0].get_ylim()
            size = 8 * (lim[1] - lim[0]) / 3 * .15
            c.ok(sorted(got) == list(range(n)) and all(len(v) == 1 for v in got.values()), "plot-band-labels", f"{got}")
            c.ok(all(abs(got[b][0] - edge[b]) <= size * .0501 + 1e-9 for b in got), "plot-band-label-position")
        if ylim is not None:
            c.close(np.array(axes[0].get_ylim()), np.array(ylim), "plot-ylim", atol=1e-9)
    finally:
        plt.close(fig)


@workload("C20", quick=20, thorough=150)
def comparisons(c, rng):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    path, spec, d = gen_path(c, rng)
    if len(path) < 3:
        raise Skip()
    n = int(rng.integers(2, 7))
    f = Waves(rng, d, n)
    i = int(rng.integers(0, n - 1))
    m = int(rng.integers(2, n - i + 1)) if n - i >= 2 else 1
    sub = slice(i, i + m)

    def big(k):
        return np.sort(f(k), -1)

    def small(k):
        return big(k)[:, sub]
    flip = rng.random() < .5
    # every other alignment is off at the first point
    g = big(np.array([path[0]], float))[0]
    if np.min(np.diff(g)) < 1e-6:
        raise Skip()
    fig = plt.figure()
    try:
        path.plot_comparison(*((small, big) if flip else (big, small)))
        k = np.array(path, float)
        full = [l for l in fig.gca().get_lines() if len(l.get_xdata()) == len(k) and l.get_linestyle() == "-"]
        dash = [l for l in fig.gca().get_lines() if len(l.get_xdata()) == len(k) and l.get_linestyle() == "--"]
        a, b = (big(k), small(k))
        if flip:
            a, b = b, a
        c.key(k, n, i, m, flip)
        c.ok(len(full) == a.shape[1] and len(dash) == b.shape[1], "comparison-lines", f"{len(full)} {a.shape} {len(dash)} {b.shape}")
        for l, y in zip(full, a.T):
            c.close(np.asarray(l.get_ydata(), float), y, "comparison-y", atol=1e-12)
        for l, y in zip(dash, b.T):
            c.close(np.asarray(l.get_ydata(), float), y, "comparison-y", atol=1e-12)
        lo, hi = (full, dash) if flip else (dash, full)
        for j, l in enumerate(lo):
            c.ok(l.get_color() == hi[i + j].get_color(), "comparison-colors")
    finally:
        plt.close(fig)
