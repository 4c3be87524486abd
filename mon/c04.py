"""C04 supercells and coordinate changes: folding oracle computed from the primitive reference model."""
import itertools
import numpy as np
from .core import *
from .models import *

P = "C04"


def gen_cell(rng, dim):
    kind = str(rng.choice(["unit", "diag", "skew", "lefthanded", "fcc", "bcc", "negdiag"]))
    if kind == "unit":
        A = np.eye(dim)
    elif kind == "diag":
        A = np.diag(rng.uniform(0.7, 6, dim))
    elif kind == "negdiag":
        A = np.diag(rng.uniform(0.7, 3, dim) * rng.choice([-1, 1], dim))
    elif kind == "fcc" and dim == 3:
        A = (np.ones((3, 3)) - np.eye(3)) * 1.8
    elif kind == "bcc" and dim == 3:
        A = (np.ones((3, 3)) - 2 * np.eye(3)) * 1.5
    else:
        while True:
            A = rng.uniform(0.7, 3) * (np.eye(dim) + 0.5 * rng.standard_normal((dim, dim)))
            if np.linalg.cond(A) < 12:
                break
        if kind == "lefthanded":
            A[:, 0] *= -1
    return A, kind


def gen_lambda(rng, dim, maxdet=8):
    for _ in range(200):
        L = rng.integers(-2, 3, size=(dim, dim))
        if rng.random() < 0.35:
            L = np.diag(rng.integers(1, 4, size=dim) * rng.choice([-1, 1], dim))
        d = abs(round(np.linalg.det(L)))
        if 1 <= d <= maxdet:
            return L, d
    raise Skip


def folded(A_orig, A_new, L, d, dim):
    """the d inequivalent reciprocal vectors of the new cell modulo those of the old one (cartesian)"""
    B_new = np.linalg.inv(A_new).T
    reps, out = [], []
    adj = np.round(np.linalg.inv(L.T) * round(np.linalg.det(L))).astype(int)
    det = round(np.linalg.det(L))
    rng_m = range(0, d)
    for m in itertools.product(rng_m, repeat=dim):
        # G = B_new m, in primitive reciprocal coordinates: A_orig^T G = inv(L)^T m ; exact modulo arithmetic
        v = tuple(int(x) % abs(det) for x in (adj @ np.array(m)) * np.sign(det))
        if v not in reps:
            reps.append(v)
            out.append(B_new @ np.array(m))
            if len(out) == d:
                break
    assert len(out) == d
    return np.array(out)


def supercell_case(c, rng, cls):
    dim = int(rng.integers(1, 4))
    nb_i, H, kind = gen_model(rng, dim, int(rng.integers(1, 3)), m=1 if dim == 3 else 2, count=int(rng.integers(1, 8)))
    A, cell = gen_cell(rng, dim)
    L, d = gen_lambda(rng, dim, 8 if dim > 1 else 6)
    A_new = A @ L
    nb = nb_i @ A.T
    with_s = cls == "asym" and rng.random() < 0.35
    S = gen_overlap(rng, nb, H.shape[-1], 0.5) if with_s else None
    ref = Ref.of(nb, H, nb, S) if with_s else Ref.of(nb, H)
    if cls == "asym":
        m = asym(nb, H, nb, S) if with_s else asym(nb, H)
        sup = m.supercell(A, A_new)
    else:
        m = bsm(nb, H, *MODES[int(rng.integers(4))])
        kw = {} if rng.random() < 0.3 else dict(zip(("cos_reduced", "exp"), MODES[int(rng.integers(4))]))
        sup = m.supercell(A, A_new, **kw)
    tag = cls + ("-S" if with_s else "")
    n = H.shape[-1]
    c.ok(sup.band_count() == n * d, f"supercell-band-count:{tag}", f"{sup.band_count()} != {n}*{d}")
    k = gen_k(rng, dim, 3) @ np.linalg.inv(A)
    Gs = folded(A, A_new, L, d, dim)
    exp = np.sort(np.concatenate([ref.bands(k + g) for g in Gs], axis=-1), axis=-1)
    sc = ref.scale() * (3 if with_s else 1)
    c.close(sup.bands(k), exp, f"supercell-folding:{tag}", rtol=3e-8, scale=sc, L=L, cell=cell, k=k)
    # all Fourier positions are vectors of the new lattice, so that the model is periodic in the new reciprocal lattice
    nbs = sup.H.neighbors if cls == "asym" else sup.neighbors
    co = nbs @ np.linalg.inv(A_new).T
    c.ok(np.all(np.abs(co - np.round(co)) < 1e-6), f"supercell-neighbors-in-new-lattice:{tag}")
    c.close(m.bands(k), ref.bands(k), f"supercell-keeps-original:{tag}", rtol=1e-8, scale=sc)
    c.event(f"det={d}")
    # supercell of a supercell
    if d <= 3 and dim < 3 and rng.random() < 0.4:
        L2, d2 = gen_lambda(rng, dim, 3)
        sup2 = sup.supercell(A_new, A_new @ L2)
        L3 = L @ L2
        G3 = folded(A, A @ L3, L3, d * d2, dim)
        exp = np.sort(np.concatenate([ref.bands(k + g) for g in G3], axis=-1), axis=-1)
        c.close(sup2.bands(k), exp, f"supercell-twice:{tag}", rtol=3e-8, scale=sc, L=L, L2=L2)
    c.key(nb, H, L)
    c.note(cell=cell, L=L, dim=dim, kind=kind)


@workload(P, quick=180, thorough=3500)
def asym_supercells(c, rng):
    supercell_case(c, rng, "asym")


@workload(P, quick=150, thorough=3000)
def bsm_supercells(c, rng):
    supercell_case(c, rng, "bsm")


@workload(P, quick=200, thorough=4000)
def transforms(c, rng):
    nb, H, kind = gen_model(rng, nmax=4)
    dim = len(nb[0])
    A, cell = gen_cell(rng, dim)
    T, _ = gen_cell(rng, dim)
    ref = Ref.of(nb, H)
    k = gen_k(rng, dim, 4)
    with_s = rng.random() < 0.3
    if with_s:
        S = gen_overlap(rng, nb, H.shape[-1], 0.5)
        ref = Ref.of(nb, H, nb, S)
        m = asym(nb, H, nb, S)
    else:
        m = asym(nb, H)
    sc = ref.scale() * 3
    kA = k @ np.linalg.inv(A)
    orig = m.copy()
    m.transform(A)
    c.close(m.bands(kA), ref.bands(k), "transform-asym" + ("-S" if with_s else ""), rtol=1e-8, scale=sc)
    c.close(m.H.neighbors, nb @ A.T, "transform-neighbors", rtol=1e-10)
    c.close(orig.bands(k), ref.bands(k), "transform-keeps-copy", rtol=1e-9, scale=sc)
    m.transform(T)
    c.close(m.bands(kA @ np.linalg.inv(T)), ref.bands(k), "transform-twice-asym", rtol=1e-7, scale=sc)
    if not with_s:
        cr, ex = MODES[int(rng.integers(4))]
        b = bsm(nb, H, cr, ex)
        b.transform(A)
        tag = f"bsm-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
        c.close(b.bands(kA), ref.bands(k), f"transform:{tag}", rtol=1e-8, scale=sc)
        # gradients are covariant: dE/dk' = A dE/dk
        g0 = bsm(nb, H, cr, ex).bands_grad(k)[1]
        e = ref.bands(k)
        if e.shape[1] == 1 or np.diff(e, axis=-1).min() > 1e-3 * sc:
            c.close(b.bands_grad(kA)[1], np.einsum("ij,njb->nib", A, g0), f"transform-gradient:{tag}", rtol=1e-6, atol=1e-9 * sc)
        b.transform(np.linalg.inv(A))
        c.close(b.bands(k), ref.bands(k), f"transform-back:{tag}", rtol=1e-8, scale=sc)
    c.key(nb, H, A)
    c.note(cell=cell, kind=kind)


@workload(P, quick=30, thorough=500)
def primitive_equivalent_cells(c, rng):
    """a unimodular 'supercell' is the same crystal: identical bands at the same cartesian k"""
    dim = int(rng.integers(2, 4))
    nb_i, H, kind = gen_model(rng, dim, int(rng.integers(1, 4)), m=1, count=6)
    A, cell = gen_cell(rng, dim)
    L, d = gen_lambda(rng, dim, 1)
    nb = nb_i @ A.T
    ref = Ref.of(nb, H)
    k = gen_k(rng, dim, 4)
    for m in (asym(nb, H), bsm(nb, H, False, True)):
        c.close(m.supercell(A, A @ L).bands(k), ref.bands(k), "unimodular-supercell", rtol=3e-8, scale=ref.scale(), L=L)
    c.key(nb, H, L)
