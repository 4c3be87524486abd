"""C01 Bloch Hamiltonian: reference Fourier sum as oracle, Hermiticity / order / periodicity monitors on every evaluation."""
import numpy as np
from .core import *
from .models import *

P = "C01"


def check_h(c, got, ref, k, scale, tag):
    c.close(got, ref, f"fourier-sum:{tag}", rtol=1e-10, scale=scale, k=k)
    c.close(got, np.conj(np.swapaxes(got, -1, -2)), f"hermitian:{tag}", rtol=1e-12, scale=scale, k=k)


def check_bands(c, bands, ref, k, scale, tag, cond=1.0):
    b = np.asarray(bands)
    c.ok(b.dtype.kind == "f", f"bands-real:{tag}", f"dtype {b.dtype}")
    c.ok(np.all(np.diff(b, axis=-1) >= -1e-9 * scale), f"bands-sorted:{tag}", bands=b)
    c.close(b, ref.bands(k), f"bands:{tag}", rtol=1e-9 * cond, scale=scale, k=k)


def stacks(rng, dim):
    r = rng.random()
    if r < 0.6:
        return gen_k(rng, dim)
    if r < 0.8:
        return gen_k(rng, dim, 6).reshape(2, 3, dim)
    if r < 0.9:
        return gen_k(rng, dim, 1)
    return gen_k(rng, dim, 1)[0]


@workload(P, quick=500, thorough=12000)
def asym_models(c, rng):
    nb, H, kind = gen_model(rng)
    dim, n = len(nb[0]), H.shape[-1]
    integer = True
    if rng.random() < 0.25:  # cartesian neighbour vectors
        A = rng.standard_normal((dim, dim)) + 2 * np.eye(dim)
        nb = nb @ A.T
        integer = False
    with_s = rng.random() < 0.35
    S = gen_overlap(rng, nb, n, 0.6) if with_s else None
    m = asym(nb, H, nb, S) if with_s else asym(nb, H)
    ref = Ref.of(nb, H, nb, S) if with_s else Ref.of(nb, H)
    k = stacks(rng, dim)
    tag = "asym-S" if with_s else "asym"
    sc = ref.scale()
    check_h(c, m.H.f(k), ref.H(k), k, sc, tag)
    if with_s:
        check_h(c, m.S.f(k), ref.S(k), k, 1.0, tag + "-overlap")
    if not with_s or np.ndim(k) == 2:
        check_bands(c, m.bands(k), ref, k, sc, tag, 3.0)
        c.close(m(k), m.bands(k), "call-is-bands", rtol=1e-12, scale=sc)
    if integer:
        G = rng.integers(-2, 3, size=dim)
        c.close(m.H.f(k + G), m.H.f(k), f"periodic:{tag}", rtol=1e-9, scale=sc, k=k, G=G)
    c.ok(m.band_count() == n and m.dim() == dim, "counts")
    c.close(m.params_complex(), H, "reported-hoppings", rtol=0)
    # splitting a stack into single points gives the same bands
    if np.ndim(k) == 2 and len(k) > 1:
        one = np.array([m.bands(kk[None])[0] for kk in k])
        c.close(m.bands(k), one, "stack-equals-single", rtol=1e-10, scale=sc)
    c.key(nb, H, k)
    c.note(kind=kind, dim=dim, n=n, overlap=with_s, k=k)


@workload(P, quick=500, thorough=12000)
def bandstructure_modes(c, rng):
    nb, H, kind = gen_model(rng)
    dim, n = len(nb[0]), H.shape[-1]
    ref = Ref.of(nb, H)
    sc = ref.scale()
    k = stacks(rng, dim)
    for cr, ex in MODES:
        m = bsm(nb, H, cr, ex)
        tag = f"bsm-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
        check_h(c, m.f(k), ref.H(k), k, sc, tag)
        check_bands(c, m.bands(k), ref, k, sc, tag)
        c.close(m.params_complex(), H, f"reported-hoppings:{tag}", rtol=1e-11, scale=sc)
        c.ok(m.band_count() == n, "counts")
    G = rng.integers(-2, 3, size=dim)
    c.close(m.f(k + G), m.f(k), "periodic:bsm", rtol=1e-9, scale=sc)
    c.key(nb, H, k)
    c.note(kind=kind, dim=dim, n=n, k=k)


def group(rng, dim):
    pick = int(rng.integers(0, 6))
    if dim == 3:
        return [lambda: Symmetry.cubic(True), lambda: Symmetry.cubic(False), lambda: Symmetry.inv(3), lambda: Symmetry.mirror3(False),
                lambda: Symmetry.perm3(False), lambda: Symmetry.tetrahedral(False)][pick]()
    if dim == 2:
        return [lambda: Symmetry.square(), lambda: Symmetry.inv(2), lambda: Symmetry([np.eye(2), np.diag([1, -1])]), lambda: Symmetry([np.eye(2), [[0, 1], [1, 0]]]), lambda: Symmetry.none(2), lambda: Symmetry.square()][pick]()
    return [lambda: Symmetry.none(1), lambda: Symmetry.inv(1)][pick % 2]()


@workload(P, quick=200, thorough=4000)
def symmetric_coefficients(c, rng):
    """coefficient functions summed over a symmetry group: H(k) = sum_s sum_i H_i exp(2 pi i k.(s r_i)) + h.c. + H_0"""
    dim = int(rng.integers(1, 4))
    sym = group(rng, dim)
    nb = half_space(dim, 2, rng, count=int(rng.integers(1, 5)))
    n = int(rng.integers(1, 4))
    H, kind = gen_params(rng, len(nb), n)
    if sym.inversion:
        H = herm(H)
    S = np.array(sym.S)
    Rs, Hs = [nb[0]], [H[0]]
    for r, h in zip(nb[1:], H[1:]):
        for s in S:
            Rs += [s @ r, -(s @ r)]
            Hs += [h, h.conj().T]
    ref = Ref(Rs, Hs)
    sc = ref.scale()
    k = gen_k(rng, dim)
    for cr, ex in MODES:
        m = bsm(nb, H, cr, ex, sym)
        tag = f"bsmsym-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
        check_h(c, m.f(k), ref.H(k), k, sc, tag)
        check_bands(c, m.bands(k), ref, k, sc, tag)
        c.close(m.params_complex(), H, f"reported-hoppings:{tag}", rtol=1e-11, scale=sc)
        s = S[int(rng.integers(len(S)))]
        c.close(m.bands(k @ s), m.bands(k), f"bands-symmetric:{tag}", rtol=1e-9, scale=sc)
        if sym.inversion:
            c.close(m.bands(-k), m.bands(k), f"bands-inversion:{tag}", rtol=1e-9, scale=sc)
    c.key(nb, H, k)
    c.note(order=len(S), inversion=sym.inversion, kind=kind, k=k)


@workload(P, quick=60, thorough=1500)
def custom_coefficients(c, rng):
    """BandStructureModel with user supplied coefficient functions: H_k = sum_i f_i(k) params_i + h.c. (i>0)"""
    dim = int(rng.integers(1, 4))
    n = int(rng.integers(1, 5))
    nt = int(rng.integers(1, 6))
    w = rng.standard_normal((nt, dim))
    f_i = lambda k, i: np.cos(np.asarray(k) @ w[i]) + i if i else np.ones(np.shape(k)[:-1])
    df_i = lambda k, i: -np.sin(np.asarray(k) @ w[i])[..., None] * w[i] if i else np.zeros(np.shape(k))
    H, kind = gen_params(rng, nt, n, "generic")
    m = BandStructureModel(f_i, df_i, H)
    k = gen_k(rng, dim)
    ref = np.zeros((len(k), n, n), complex) + H[0]
    for i in range(1, nt):
        ref = ref + f_i(k, i)[:, None, None] * (H[i] + H[i].conj().T)
    sc = np.sum(np.abs(H)) * (nt + 1)
    check_h(c, m.f(k), ref, k, sc, "custom")
    c.close(m.bands(k), np.linalg.eigvalsh(ref), "bands:custom", rtol=1e-9, scale=sc)
    d = sum(df_i(k, i)[:, :, None, None] * (H[i] + H[i].conj().T) for i in range(1, nt)) if nt > 1 else np.zeros((len(k), dim, n, n))
    c.close(m.df(k), d, "gradient:custom", rtol=1e-9, scale=sc)
    c.key(H, k)


@workload(P, quick=6, thorough=60)
def stored_copper_model(c, rng):
    """the shipped 3d copper fit: both classes and the reference agree"""
    import json
    path = "/repo/examples/cu_asym_4.json"
    d = json.load(open(path))
    n = d["band_count"]
    nb = np.array(d["neighbors"], float)
    H = np.array([[complex(*v) for v in h["data"]] for h in d["params"]]).reshape(len(nb), n, n)
    H[0] = herm(H[0])
    ref = Ref.of(nb, H)
    k = gen_k(rng, 3, 12)
    m = AsymTightBindingModel.load(path)
    sc = np.max(np.abs(ref.bands(k)))
    c.close(m.bands(k), ref.bands(k), "bands:copper-asym", rtol=1e-9, scale=sc)
    m2 = BandStructureModel.load(path, cos_reduced=bool(rng.random() < 0.5), exp=bool(rng.random() < 0.5))
    c.close(m2.bands(k), ref.bands(k), "bands:copper-bsm", rtol=1e-8, scale=sc)
    c.key(k)


def legacy_model(rng):
    """TightBindingModel: cosine and sine terms (without inversion), or parity blocks (with inversion); the equivalent plain Fourier series"""
    dim = int(rng.integers(1, 4))
    nb = half_space(dim, int(rng.integers(1, 3)), rng, count=int(rng.integers(1, 5)))
    n = int(rng.integers(1, 5))
    nt = len(nb)
    inv = bool(rng.random() < .5) and dim != 2  # inversion is not split off in even dimensions
    A = herm(rng.standard_normal((nt, n, n)) + 1j * rng.standard_normal((nt, n, n)))
    if inv:
        from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
        u = UR(Symmetry.inv(dim), n)
        u.inv_split = int(rng.integers(0, n + 1))
        same = np.equal.outer(np.arange(n) < u.inv_split, np.arange(n) < u.inv_split)
        params = A
        C, S = A * same, A * ~same
        S[0] = 0
    else:
        from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
        u = UR(none(dim), n)
        S = herm(rng.standard_normal((nt, n, n)) + 1j * rng.standard_normal((nt, n, n)))
        C = A
        S[0] = 0
        params = np.concatenate([C, S[1:]])
    given = params.copy()
    from tight_binding_redweasel.tight_binding import TightBindingModel
    m = TightBindingModel(u, nb, params)
    H = (C - 1j * S) / 2
    H[0] = C[0] - C[1:].sum(0)
    return m, nb, H, params, given, inv


@workload(P, quick=80, thorough=1500)
def legacy(c, rng):
    """TightBindingModel: H(k) = P_0 + sum_i (cos(2 pi k r_i) - 1) P_i + sin(2 pi k r_i) P'_i"""
    m, nb, H, params, given, inv = legacy_model(rng)
    ref = Ref.of(nb, H)
    k = gen_k(rng, nb.shape[1])
    tag = "legacy-inversion" if inv else "legacy"
    c.ok(np.array_equal(params, given), "legacy-arguments-unchanged")
    check_h(c, m.f(k), ref.H(k), k, ref.scale() * 3, tag)
    check_bands(c, m.bands(k), ref, k, ref.scale() * 3, tag)
    c.close(m.params_complex(), H, "legacy-reports-its-hoppings", rtol=1e-9, scale=ref.scale())
    c.close(m(k), m.bands(k), "legacy-call", rtol=1e-12, atol=1e-12 * ref.scale())
    c.ok(m.band_count() == H.shape[-1] and m.dim() == nb.shape[1], "legacy-counts")
    c.key(nb, H, k)
    c.event(tag)
