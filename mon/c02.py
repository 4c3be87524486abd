"""C02 derivatives: analytic perturbation-theory oracle (own implementation) for every returned gradient and Hessian."""
import numpy as np
from .core import *
from .models import *
from .c01 import group, legacy_model

P = "C02"


def clusters(e, scale):
    """groups of exactly degenerate levels; Skip if a gap is neither clearly closed nor clearly open"""
    gaps = np.diff(e)
    closed = gaps < min(1e-9 * scale, 1e-7)
    opened = gaps > max(2e-4 * scale, 1e-5)
    if not np.all(closed | opened):
        return None
    out, cur = [], [0]
    for i in range(1, len(e)):
        if closed[i - 1]:
            cur.append(i)
        else:
            out.append(cur)
            cur = [i]
    out.append(cur)
    return out


def reference_point(ref, k, scale):
    """per cluster: (indices, trace of gradient, trace of Hessian, magnitude for the tolerance)"""
    H, dH, ddH = ref.H(k), ref.dH(k), ref.ddH(k)
    e, v = np.linalg.eigh(H)
    cl = clusters(e, scale)
    if cl is None:
        return None
    d = v.conj().T @ dH @ v
    dd = v.conj().T @ ddH @ v
    out = []
    ndH = np.abs(d).sum()
    for c in cl:
        rest = [j for j in range(len(e)) if j not in c]
        g = np.real(sum(d[:, i, i] for i in c))
        h = np.real(sum(dd[:, :, i, i] for i in c))
        # the sum of the terms before they cancel carries the rounding
        mag = np.abs(dd).sum() + 1e-4 * np.einsum("r,rd,re,rij->", np.ones(len(ref.Rs)), np.abs(2 * np.pi * ref.Rs), np.abs(2 * np.pi * ref.Rs), np.abs(ref.Hs)) + 1e-300
        for i in c:
            for j in rest:
                t = d[:, None, i, j] * d[None, :, j, i] / (e[i] - e[j])
                h = h + 2 * np.real(t)
                mag += ndH**2 / abs(e[i] - e[j]) * 0.01
        out.append((c, g, h, mag))
    return e, out, ndH


def judge(c, model, ref, k, tag, hess=True):
    scale = ref.scale()
    n, dim = ref.n, np.shape(k)[-1]
    got_b, got_g = model.bands_grad(k)
    b = model.bands(k)
    c.close(got_b, b, f"bands-with-grad:{tag}", rtol=1e-9, scale=scale)
    c.ok(np.shape(got_g) == (len(k), dim, n), f"grad-shape:{tag}", f"{np.shape(got_g)}")
    if hess:
        hb, hg, hh = model.bands_grad_hess(k)
        c.close(hb, b, f"bands-with-hess:{tag}", rtol=1e-9, scale=scale)
        c.ok(np.shape(hg) == (len(k), dim, n), f"hess-grad-shape:{tag}", f"{np.shape(hg)}")
        c.ok(np.shape(hh) == (len(k), dim, dim, n), f"hess-shape:{tag}", f"{np.shape(hh)}")
    reached = 0
    for i, kk in enumerate(k):
        r = reference_point(ref, kk, scale)
        if r is None:
            c.event("point-skipped-near-degenerate")
            continue
        e, cl, ndH = r
        reached += 1
        for idx, g, h, mag in cl:
            deg = "degenerate" if len(idx) > 1 else "simple"
            c.event(f"level-{deg}")
            mingap = min([abs(e[a] - e[b]) for a in idx for b in range(n) if b not in idx], default=1.0)
            tol = 1e-9 + 1e-13 * scale / mingap
            c.close(got_g[i][:, idx].sum(-1), g, f"grad-{deg}:{tag}", rtol=max(tol, 1e-9), scale=ndH + scale * 1e-3, k=kk, level=idx)
            if hess:
                c.close(hg[i][:, idx].sum(-1), g, f"hess-grad-{deg}:{tag}", rtol=max(tol, 1e-9), scale=ndH + scale * 1e-3, k=kk, level=idx)
                c.close(hh[i][..., idx].sum(-1), h, f"hess-{deg}:{tag}", rtol=max(tol * 10, 1e-8), scale=mag, k=kk, level=idx)
    return reached


def derivs(c, obj, ref, k, tag):
    scale = ref.scale()
    m = max(1.0, np.abs(ref.Rs).max()) * 2 * np.pi
    c.close(obj.df(k), ref.dH(k), f"dH:{tag}", rtol=1e-10, scale=scale * m, k=k)
    c.close(obj.ddf(k), ref.ddH(k), f"ddH:{tag}", rtol=1e-10, scale=scale * m**2, k=k)


@workload(P, quick=400, thorough=9000)
def asym_models(c, rng):
    nb, H, kind = gen_model(rng, nmax=5)
    if rng.random() < 0.25:
        A = rng.standard_normal((len(nb[0]),) * 2) + 2 * np.eye(len(nb[0]))
        nb = nb @ A.T
    m, ref = asym(nb, H), Ref.of(nb, H)
    k = gen_k(rng, len(nb[0]))
    derivs(c, m.H, ref, k, "asym")
    if len(k) > 1:
        ks = k[:2 * (len(k) // 2)].reshape(2, -1, k.shape[-1])
        derivs(c, m.H, ref, ks, "asym-stack")
    if judge(c, m, ref, k, "asym") == 0:
        raise Skip
    c.key(nb, H, k)
    c.note(kind=kind, k=k)


@workload(P, quick=300, thorough=7000)
def bandstructure_modes(c, rng):
    nb, H, kind = gen_model(rng, nmax=4)
    ref = Ref.of(nb, H)
    k = gen_k(rng, len(nb[0]), int(rng.integers(1, 5)))
    reached = 0
    for cr, ex in MODES:
        m = bsm(nb, H, cr, ex)
        tag = f"bsm-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
        derivs(c, m, ref, k, tag)
        reached += judge(c, m, ref, k, tag)
    if not reached:
        raise Skip
    c.key(nb, H, k)
    c.note(kind=kind, k=k)


@workload(P, quick=120, thorough=2500)
def symmetric_coefficients(c, rng):
    dim = int(rng.integers(1, 4))
    sym = group(rng, dim)
    nb = half_space(dim, 2, rng, count=int(rng.integers(1, 4)))
    H, kind = gen_params(rng, len(nb), int(rng.integers(1, 4)))
    if sym.inversion:
        H = herm(H)
    Rs, Hs = [nb[0]], [H[0]]
    for r, h in zip(nb[1:], H[1:]):
        for s in np.array(sym.S):
            Rs += [s @ r, -(s @ r)]
            Hs += [h, h.conj().T]
    ref = Ref(Rs, Hs)
    k = gen_k(rng, dim, 3)
    reached = 0
    for cr, ex in MODES:
        m = bsm(nb, H, cr, ex, sym)
        tag = f"bsmsym-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
        derivs(c, m, ref, k, tag)
        reached += judge(c, m, ref, k, tag)
    if not reached:
        raise Skip
    c.key(nb, H, k)


@workload(P, quick=200, thorough=5000)
def degenerate_levels(c, rng):
    """levels degenerate everywhere (rotated duplicates) or at isolated points (spin-1 crossing, Kramers-like, hybrid)"""
    dim = int(rng.integers(1, 4))
    variant = str(rng.choice(["duplicate", "duplicate", "spin1", "accidental"]))
    if variant == "duplicate":
        nb, H1, kind = gen_model(rng, dim, int(rng.integers(1, 3)), kind="generic")
        copies = int(rng.integers(2, 4))
        extra = int(rng.integers(0, 2))
        n1 = H1.shape[-1]
        N = n1 * copies + extra
        H = np.zeros((len(nb), N, N), complex)
        for a in range(copies):
            H[:, a * n1:(a + 1) * n1, a * n1:(a + 1) * n1] = H1
        if extra:
            H[:, -1, -1] = rng.standard_normal(len(nb))
        k = gen_k(rng, dim, 3)
    elif variant == "spin1":
        # H(k) = E0 + sum_d sin(2 pi k_d) L_d + diag(...)(1-cos): threefold crossing at k=0 for which all directions rotate the basis
        L = np.array([[[0, 0, 0], [0, 0, -1j], [0, 1j, 0]], [[0, 0, 1j], [0, 0, 0], [-1j, 0, 0]], [[0, -1j, 0], [1j, 0, 0], [0, 0, 0]]])
        nb = np.concatenate([np.zeros((1, dim)), np.eye(dim)])
        H = np.zeros((dim + 1, 3, 3), complex)
        H[0] = np.eye(3) * rng.standard_normal()
        for d in range(dim):
            H[1 + d] = L[d] / 2j * rng.uniform(0.3, 2)
        if rng.random() < 0.5:
            extra = herm(rng.standard_normal((3, 3)) + 1j * rng.standard_normal((3, 3)))
            H[0] += extra
            H[1] -= extra / 2  # vanishes at k=0 to second order, contributes to the Hessian only
        N = 3
        if rng.random() < 0.5:  # further non-degenerate band, coupled linearly in k
            H2 = np.zeros((dim + 1, 4, 4), complex)
            H2[:, :3, :3] = H
            H2[0, 3, 3] = 5.0 + rng.random()
            v = rng.standard_normal(3) + 1j * rng.standard_normal(3)
            H2[1, :3, 3] += v
            H2[1, 3, :3] += -v.conj()
            H, N = H2, 4
        k = np.concatenate([np.zeros((1, dim)), gen_k(rng, dim, 2)])
    else:
        nb, H, kind = gen_model(rng, dim, 3, kind="generic")
        k = gen_k(rng, dim, 2)
        H0 = Ref.of(nb, H).H(k[0])
        e, v = np.linalg.eigh(H0)
        e2 = np.array(e)
        e2[1] = e2[0]
        H[0] = H[0] + herm(v @ np.diag(e2 - e) @ v.conj().T)
        N = 3
    U = np.linalg.qr(rng.standard_normal((N, N)) + 1j * rng.standard_normal((N, N)))[0]
    if rng.random() < 0.7:
        H = U @ H @ U.conj().T
    H[0] = herm(H[0])
    ref = Ref.of(nb, H)
    reached = judge(c, asym(nb, H), ref, k, f"deg-{variant}-asym")
    cr, ex = MODES[int(rng.integers(4))]
    reached += judge(c, bsm(nb, H, cr, ex), ref, k, f"deg-{variant}-bsm")
    if not reached:
        raise Skip
    c.key(nb, H, k)
    c.note(variant=variant, k=k)


@workload(P, quick=150, thorough=3000)
def overlap_models(c, rng):
    """generalised problem H v = E S v: derivatives against a 4th order difference quotient of reference bands"""
    dim = int(rng.integers(1, 4))
    n = int(rng.integers(1, 4))
    nb = half_space(dim, 1, rng, count=int(rng.integers(1, 5)))
    H, kind = gen_params(rng, len(nb), n, str(rng.choice(["generic", "real", "sparse"])))
    S = gen_overlap(rng, nb, n, 0.5)
    if rng.random() < 0.25:
        S[1:] = 0  # constant overlap
    k = gen_k(rng, dim, 3)
    if rng.random() < 0.3:
        # the overlap is the unit matrix exactly at the queried point, but its derivatives are not zero there
        k = gen_k(rng, dim, 1) if rng.random() < 0.5 else np.zeros((1, dim))
        S[0] = np.eye(n)
        for i, r in enumerate(nb):
            if np.any(np.asarray(r) != 0):
                x = rng.standard_normal((n, n))
                S[i] = 0.3j * (x + x.T) / (2 * np.sqrt(n) * len(nb)) * np.exp(-2j * np.pi * np.dot(k[0], r))
        c.event("overlap is one at the queried point")
    m, ref = asym(nb, H, nb, S), Ref.of(nb, H, nb, S)
    derivs(c, m.S, Ref(ref.S_Rs, ref.S_Hs), k, "overlap")
    b0 = ref.bands(k)
    got_b, got_g = m.bands_grad(k)
    hb, hg, hh = m.bands_grad_hess(k)
    sc = ref.scale() * 3
    c.close(got_b, b0, "bands-with-grad:S", rtol=1e-9, scale=sc)
    c.close(hb, b0, "bands-with-hess:S", rtol=1e-9, scale=sc)
    c.ok(np.shape(hh) == (len(k), dim, dim, n) and np.shape(got_g) == (len(k), dim, n), "hess-shape:S", f"{np.shape(hh)}")
    h = 2e-3
    st = [(-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)]
    st2 = [(-2, -1 / 12), (-1, 4 / 3), (0, -5 / 2), (1, 4 / 3), (2, -1 / 12)]
    e = np.eye(dim)
    reached = 0
    sc = np.abs(ref.Hs).sum()
    for i, kk in enumerate(k):
        if n > 1 and np.min(np.diff(b0[i])) < 0.08 * sc:
            continue
        reached += 1
        g = np.array([sum(w * ref.bands((kk + s * h * e[d])[None])[0] for s, w in st) / h for d in range(dim)])
        c.close(got_g[i], g, "grad:S", rtol=2e-5, scale=sc * 2 * np.pi, k=kk)
        c.close(hg[i], g, "hess-grad:S", rtol=2e-5, scale=sc * 2 * np.pi, k=kk)
        hs = np.zeros((dim, dim, n))
        for a in range(dim):
            for b in range(dim):
                if a == b:
                    hs[a, a] = sum(w * ref.bands((kk + s * h * e[a])[None])[0] for s, w in st2) / h**2
                else:
                    hs[a, b] = sum(w1 * w2 * ref.bands((kk + s1 * h * e[a] + s2 * h * e[b])[None])[0] for s1, w1 in st for s2, w2 in st) / h**2
        c.close(hh[i], hs, "hess:S", rtol=3e-4, scale=sc * 40, k=kk)
    if not reached:
        raise Skip
    c.key(nb, H, S, k)


@workload(P, quick=120, thorough=2500)
def unit_overlap_equals_none(c, rng):
    """models with explicit unit overlap, with a constant overlap that is a basis change, and without, agree"""
    nb, H, kind = gen_model(rng, nmax=4, kind="generic")
    dim, n = len(nb[0]), H.shape[-1]
    k = gen_k(rng, dim, 3)
    ref = Ref.of(nb, H)
    S = np.zeros_like(H)
    S[0] = np.eye(n)
    r1 = judge(c, asym(nb, H, nb, S), ref, k, "unit-S")
    M = np.eye(n) + 0.3 * (rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))) / np.sqrt(n)
    if np.linalg.cond(M) > 20:
        raise Skip
    Hc = M.conj().T @ H @ M
    Sc = np.array([herm(M.conj().T @ M)])
    m = asym(nb, Hc, nb[:1], Sc)
    r = judge_soft(c, m, ref, k)
    if not r1 + r:
        raise Skip
    c.key(nb, H, k, M)


def judge_soft(c, m, ref, k):
    scale = ref.scale()
    got_b, got_g = m.bands_grad(k)
    hb, hg, hh = m.bands_grad_hess(k)
    c.close(got_b, ref.bands(k), "bands:basis-change", rtol=1e-8, scale=scale)
    reached = 0
    for i, kk in enumerate(k):
        r = reference_point(ref, kk, scale)
        if r is None or len(r[1]) != ref.n:
            continue
        reached += 1
        for idx, g, h, mag in r[1]:
            c.close(got_g[i][:, idx].sum(-1), g, "grad:basis-change", rtol=1e-6, scale=r[2] + scale)
            c.close(hh[i][..., idx].sum(-1), h, "hess:basis-change", rtol=1e-5, scale=mag)
    return reached


@workload(P, quick=60, thorough=1000)
def legacy(c, rng):
    m, nb, H, params, given, inv = legacy_model(rng)
    ref = Ref.of(nb, H)
    k = gen_k(rng, nb.shape[1])
    tag = "legacy-inversion" if inv else "legacy"
    derivs(c, m, ref, k, tag)
    e = ref.bands(k)
    k = k[np.min(np.diff(e, axis=1), axis=1, initial=np.inf) > 1e-3 * ref.scale()]
    if len(k) == 0 or judge(c, m, ref, k, tag) == 0:
        raise Skip
    c.key(nb, H, k)


@workload(P, quick=60, thorough=1200)
def coupling(c, rng):
    """electron_phonon_coupling: g_ij(k, k') = (v_i(k) - v_j(k')) <i k|j k'>, judged by magnitudes and loop products, which need no phase convention"""
    dim = int(rng.integers(1, 4))
    nb = half_space(dim, {1: 3, 2: 1, 3: 1}[dim], rng, count=int(rng.integers(1, 5)))
    n = int(rng.integers(1, 5))
    H, _ = gen_params(rng, len(nb), n, "generic")
    ref = Ref.of(nb, H)
    m = bsm(nb, H, *MODES[int(rng.integers(4))])
    k = rng.uniform(-1, 1, size=(int(rng.integers(2, 8)), dim))
    a = rng.integers(0, len(k), size=int(rng.integers(1, 5)))
    b = rng.integers(0, len(k), size=int(rng.integers(1, 5)))
    E, U = np.linalg.eigh(ref.H(k))
    if n > 1 and np.min(np.diff(E, axis=-1)) < 1e-3 * ref.scale():
        raise Skip()
    v = np.real(np.einsum("kai,kdab,kbi->kdi", U.conj(), ref.dH(k), U))
    bands, vel, g = m.electron_phonon_coupling(k, a, b)
    vs = np.abs(v).max() + 1e-300
    c.close(bands, E, "coupling-bands", rtol=1e-9, scale=ref.scale())
    c.close(vel, v, "coupling-velocity", rtol=1e-7, scale=vs)
    ov = np.einsum("pai,qaj->pqij", U[a].conj(), U[b])
    want = (np.swapaxes(v[a], 1, 2)[:, None, :, None, :] - np.swapaxes(v[b], 1, 2)[None, :, None, :, :]) * ov[..., None]  # p q i j d
    want = np.moveaxis(want, -1, 2)
    c.close(np.abs(g), np.abs(want), "coupling-magnitude", rtol=1e-7, scale=vs)
    # relative phases: g_d conj(g_0) and the loop over two bands
    c.close(g * np.conj(g[:, :, :1]), want * np.conj(want[:, :, :1]), "coupling-direction-phase", rtol=1e-7, scale=vs**2)
    if n > 1:
        loop = lambda x: x[..., 0, 0] * np.conj(x[..., 0, 1]) * x[..., 1, 1] * np.conj(x[..., 1, 0])
        c.close(loop(g), loop(want), "coupling-loop", rtol=1e-6, scale=vs**4)
    c.key(H, k)
