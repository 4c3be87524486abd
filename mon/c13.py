"""C13 symmetrised hoppings: the Hamiltonian is evaluated by an independent Fourier sum at every symmetry image and compared with the orbital representation."""
from .core import *
from .reps import *
from .models import Ref, half_space, herm, BandStructureModel, AsymTightBindingModel
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry

P = "C13"


def lattice_group(rng):
    """point group of integer matrices (an arithmetic crystal class), as a list of all operations"""
    d = int(rng.choice([1, 2, 2, 3, 3, 3]))
    u = rng.random()
    if d == 2 and u < 0.4:
        B = np.linalg.inv(HEX2)
        ops = closure([rot((0, 0, 1), 2 * np.pi / 6)[:2, :2], np.diag([1., -1])])
        name, W = "hex2", B
        ops = ops[[0] + list(1 + rng.permutation(len(ops) - 1))]
    elif d == 3 and u < 0.25:
        ops, name, W = closure([rot((0, 0, 1), 2 * np.pi / 6), np.diag([1., -1, 1]), np.diag([1., 1, -1])]), "hex", np.linalg.inv(HEX)
    elif d == 3 and u < 0.5:
        ops, name, W = signed_perms(), "fcc", np.linalg.inv(FCC)
    else:
        ops, name, W = (signed_perms(), "cubic", np.eye(3)) if d == 3 else (closure([[[0, 1], [-1, 0]], [[1, 0], [0, -1]]]), "square", np.eye(2)) if d == 2 else (np.array([[[1.]], [[-1.]]]), "line", np.eye(1))
    if rng.random() < 0.85 or len(ops) > 48:  # a subgroup
        g = ops[rng.integers(len(ops), size=int(rng.integers(1, 4)))]
        ops = closure(list(g))
    cart = ops
    ops = np.round(np.einsum("ab,nbc,cd->nad", W, ops, np.linalg.inv(W)))
    assert np.allclose(np.abs(np.linalg.det(ops)), 1)
    return name, d, ops, cart


def sites(rng, ops):
    """positions which every operation maps to themselves up to lattice vectors"""
    d = ops.shape[1]
    res = []
    cand = [rng.choice([0, 0.5, 1 / 3, 2 / 3, 0.25, 0.75, -0.5], size=d) for _ in range(60)] + [np.full(d, 0.25), np.full(d, 0.5), np.array([1 / 3, 2 / 3, 0.5])[:d], np.array([0, 0.5, 0])[:d]]
    for r in cand + [rng.uniform(size=d) for _ in range(2)]:
        x = ops @ r - r
        if np.abs(x - np.round(x)).max() < 1e-9:
            res.append(r)
    res.append(np.zeros(d))
    return res


def build(c, rng, max_dim=7):
    name, d, ops, cart = lattice_group(rng)
    sym = make(ops, rng)
    h = HamiltonianSymmetry(sym)
    pos = sites(rng, ops)
    orth = np.allclose(ops, cart)
    Us, rs = [], []
    inv_i = find(-np.eye(d), ops)
    reps = some_reps(cart, rng)
    for _ in range(int(rng.integers(1, 4))):
        r = pos[int(rng.integers(len(pos)))]
        kind = rng.choice(["s", "p", "d3", "custom"] if orth else ["s", "custom", "custom"])
        nm, U = reps[int(rng.integers(len(reps)))]
        if kind == "s":
            U = np.ones((len(ops), 1, 1))
        elif kind == "p":
            U = ops
        elif kind == "d3":
            U = ops * np.linalg.det(ops)[:, None, None]
        elif sym.inversion and np.abs(np.abs(np.trace(U[inv_i])) - U.shape[-1]) > 1e-9:
            continue
        if sum(u.shape[-1] for u in Us) + U.shape[-1] > max_dim:
            continue
        if kind == "custom":
            h.append(as_urep(sym, ops, U), r, nm)
        else:
            getattr(h, "append_" + kind)(r, kind)
        Us.append(U)
        rs.append(np.asarray(r, float))
    if not Us:
        raise Skip
    n = half_space(d, int(rng.integers(1, 3)), rng, int(rng.integers(2, 14 if d > 1 else 6)))
    if rng.random() < 0.5:  # closed under the group, up to signs
        full = np.unique(np.round(np.concatenate([(ops @ x) for x in n[1:]])), axis=0)
        out = [np.zeros(d)]
        for x in full:
            if np.any(x) and not any(np.array_equal(x, -y) or np.array_equal(x, y) for y in out):
                out.append(x)
        n = np.array(out)
    if len(n) > 40:
        n = n[:40]
    if rng.random() < 0.1 and len(n) > 1:
        n = n[1:][rng.permutation(len(n) - 1)]
        n = np.concatenate([n, np.zeros((1, d))])  # onsite term at another place
    N = sum(u.shape[-1] for u in Us)
    H = rng.standard_normal((len(n), N, N))
    u = rng.random()
    if u < 0.12:
        H = np.round(3 * H).astype(int)  # integers
    elif u < 0.7:
        H = H + 1j * rng.standard_normal(H.shape)
    if rng.random() < 0.7:
        i0 = int(np.argmin(np.linalg.norm(n, axis=1)))
        H[i0] = H[i0] + H[i0].T if H.dtype.kind == "i" else herm(H[i0])
    return name, d, ops, sym, h, Us, rs, n, H


def full_list(n, H):
    d = {}
    for x, m in zip(n, H):
        if np.any(x):
            d[tuple(np.round(x).astype(int))] = m
            d[tuple(np.round(-x).astype(int))] = m.conj().T
        else:
            d[tuple(np.zeros(len(x), int))] = (m + m.conj().T) / 2
    return d


def mean_ref(n, H, ops, Us, rs):
    """group mean computed hopping by hopping on the full list of lattice vectors; components with a missing partner vanish"""
    D = full_list(n, H)
    N = H.shape[-1]
    off = np.cumsum([0] + [u.shape[-1] for u in Us])
    out = np.zeros((len(n), N, N), complex)
    for i, R in enumerate(n):
        for a in range(len(Us)):
            for b in range(len(Us)):
                sa, sb = slice(off[a], off[a + 1]), slice(off[b], off[b + 1])
                acc = 0
                for g, s in enumerate(ops):
                    v = s @ (R + rs[b] - rs[a]) - (rs[b] - rs[a])
                    key_ = tuple(np.round(v).astype(int))
                    if np.abs(v - np.round(v)).max() > 1e-6 or key_ not in D:
                        acc = None
                        break
                    acc = acc + Us[a][g].conj().T @ D[key_][sa, sb] @ Us[b][g]
                if acc is not None:
                    out[i, sa, sb] = acc / len(ops)
    return out


@workload(P, quick=260, thorough=3000)
def hamiltonian(c, rng):
    name, d, ops, sym, h, Us, rs, n, H = build(c, rng)
    arg, dig = H.copy(), digest(h)
    nn = n if rng.random() < 0.5 else [tuple(x) for x in n]
    f = h.symmetrizer(nn)
    X = f(H)
    c.ok(np.array_equal(arg, H), "arguments-unchanged")
    Y = h.symmetrize(H, nn)
    sc = np.abs(H).max()
    c.close(X, Y, "fast-agrees-with-direct", rtol=1e-9, scale=sc, group=name, order=len(ops))
    c.ok(np.array_equal(arg, H) and digest(h) == dig, "arguments-unchanged")
    want = mean_ref(n, H, ops, Us, rs)
    c.close(X, want, "group-mean", rtol=1e-7, scale=sc, group=name, order=len(ops), n=n)
    c.close(f(X), X, "idempotent", rtol=1e-8, scale=sc)
    c.close(h.symmetrize(X, nn), X, "symmetric-stays", rtol=1e-8, scale=sc)
    H2 = rng.standard_normal(H.shape) + (1j if np.iscomplexobj(H) else 0)
    c.close(f(2.5 * H + H2), 2.5 * X + f(H2), "linear", rtol=1e-8, scale=4 * sc + 4)
    # the Hamiltonian at every image
    Rs, Hs = full_arrays(n, X)
    off = np.cumsum([0] + [u.shape[-1] for u in Us])
    ref = Ref(Rs, Hs)
    delta = np.concatenate([np.repeat(r[None], u.shape[-1], 0) for u, r in zip(Us, rs)])
    amp = max(ref.scale(), 1e-6 * sc)
    sel = np.arange(len(ops)) if len(ops) <= 12 else rng.permutation(len(ops))[:12]
    for k in rng.uniform(-1, 1, (2, d)):
        Hk = ref.H(k)
        Ek = np.linalg.eigvalsh(Hk)
        for g in sel:
            k2 = np.linalg.inv(ops[g]).T @ k
            U = np.zeros((len(delta),) * 2, complex)
            for a, u in enumerate(Us):
                U[off[a]:off[a + 1], off[a]:off[a + 1]] = u[g]
            # lattice gauge -> atom gauge -> rotate -> lattice gauge
            ph, ph2 = np.exp(2j * np.pi * delta @ k), np.exp(2j * np.pi * delta @ k2)
            atom = np.conj(ph)[:, None] * Hk * ph[None, :]
            want = ph2[:, None] * (U @ atom @ U.conj().T) * np.conj(ph2)[None, :]
            got = ref.H(k2)
            c.close(np.linalg.eigvalsh(got), Ek, "bands-at-images", rtol=1e-9, scale=amp, group=name, op=ops[g])
            c.close(got, want, "hamiltonian-at-images", rtol=1e-8, scale=amp, group=name, op=ops[g])
    if np.abs(X).max() > 1e-9 * sc:
        c.key(ops, n, Us, rs)
        c.event("nonzero-result")
    c.note(group=name, order=len(ops), neighbors=len(n), dim=X.shape[-1], positions=rs)


def full_arrays(n, X):
    D = full_list(n, X)
    return np.array(list(D.keys()), float), np.array(list(D.values()))


@workload(P, quick=150, thorough=1500)
def apply_realize(c, rng):
    """apply(k, H(k), s) is the Hamiltonian at the image point, realize_symmetric gives all images"""
    name, d, ops, sym, h, Us, rs, n, H = build(c, rng)
    X = h.symmetrizer(n)(H)
    ref = Ref(*full_arrays(n, X))
    amp = max(ref.scale(), 1e-6 * np.abs(H).max())
    k = rng.uniform(-1, 1, d)
    if rng.random() < 0.3:
        k = rng.integers(-1, 2, d) / 2
    S = np.asarray(sym.S, float)
    Hk = ref.H(k)
    arg = Hk.copy()
    for j in (range(len(S)) if len(S) < 8 else rng.permutation(len(S))[:8]):
        for inv in ([False, True] if sym.inversion else [False]):
            k2 = np.linalg.inv(S[j]).T @ k * (-1 if inv else 1)
            args = (k, Hk, int(j), inv) if inv or rng.random() < 0.5 else (k, Hk, int(j))
            c.close(h.apply(*args), ref.H(k2), "apply-is-image", rtol=1e-8, scale=amp, group=name, op=S[j], inversion=inv)
    c.ok(np.array_equal(arg, Hk), "arguments-unchanged")
    ks = np.array([k, k * 0.5 + 0.1 * rng.standard_normal(d)]) if rng.random() < 0.5 else k[None]
    imgs = [{tuple(np.round(np.linalg.inv(s).T @ x, 6) + 0.0) for s in ops} for x in ks]
    if len(ks) == 2 and imgs[0] & imgs[1]:
        ks, imgs = ks[:1], imgs[:1]
    kk, HH, order = h.realize_symmetric(ks, ref.H(ks))
    got = [tuple(np.round(x, 6) + 0.0) for x in kk]
    want = set().union(*imgs)
    c.ok(len(got) == len(want), "realize-all-images-once", f"{len(got)} != {len(want)}")
    dist = np.abs(np.asarray(kk)[:, None] - np.array(sorted(want))[None]).max(-1)
    c.ok(dist.min(0).max() < 1e-5 and dist.min(1).max() < 1e-5, "realize-all-images-once")
    c.close(HH, ref.H(kk), "realize-hamiltonians", rtol=1e-8, scale=amp, group=name)
    for x, o in zip(kk, order):
        c.ok(min(np.abs(np.asarray(list(imgs[o])) - x).max(1)) < 1e-5, "realize-source-index")
    c.key(ops, k, Us)


@workload(P, quick=60, thorough=600)
def fitted_model(c, rng):
    """a model carrying the symmetriser keeps the symmetry through normalisation and fitting"""
    name, d, ops, sym, h, Us, rs, n, H = build(c, rng, max_dim=4)
    i0 = int(np.argmin(np.linalg.norm(n, axis=1)))
    n = n[[i0] + [i for i in range(len(n)) if i != i0]]
    N = H.shape[-1]
    ks = np.concatenate([np.zeros((1, d)), rng.uniform(-0.5, 0.5, (5, d))])
    bands = np.sort(rng.standard_normal((6, N)), axis=1)
    f = h.symmetrizer(n)
    tb = BandStructureModel.init_tight_binding_from_ref(Symmetry.none(d), n, ks, bands, 0, 0, cos_reduced=False, exp=True)
    if tb.params.shape != (len(n), N, N):
        raise Skip
    P0 = 0.3 * (rng.standard_normal(tb.params.shape) + 1j * rng.standard_normal(tb.params.shape))
    P0[0] = herm(P0[0])
    tb.params = f(P0)
    tb.symmetrizer = f
    t2 = tb.copy()
    with quiet():
        t2.optimize(ks, 1.0, bands, 1.0, 0, 4, 4, train_k0=True) if rng.random() < 0.5 else t2.normalize()
    sc = np.abs(t2.params).max() + 1e-9
    if not np.isfinite(sc):
        raise Skip
    c.close(f(t2.params), t2.params, "symmetry-kept", rtol=1e-7, scale=sc, group=name)
    k = rng.uniform(-1, 1, d)
    E = t2.bands(np.array([np.linalg.inv(s).T @ k for s in ops]))
    c.close(E, np.broadcast_to(E[0], E.shape), "bands-at-images", rtol=1e-7, scale=sc * len(n) * 4, group=name)
    c.key(ops, n, Us)


@workload(P, quick=80, thorough=800)
def unitary_symmetrize(c, rng):
    """UnitaryRepresentation.symmetrize / symmetrizer / symmetrize2 / realize_symmetric_matrices / check_symmetry for orthogonal groups with inversion"""
    name, ref = small(rng, 3, 48)
    if find(-np.eye(3), ref) is None:
        ref = np.concatenate([ref, -ref])
    if not np.all(np.sum(np.abs(ref) > 1e-9, axis=1) == 1):
        raise Skip
    sym = make(ref, rng)
    if len(sym.S) == 1:
        raise Skip
    reps = some_reps(ref, rng)
    blocks = []
    mI = find(-np.eye(3), ref)
    for _ in range(int(rng.integers(1, 4))):
        nm, U = reps[int(rng.integers(len(reps)))]
        if abs(abs(np.trace(U[mI])) - U.shape[-1]) < 1e-9 and sum(b.shape[-1] for b in blocks) + U.shape[-1] < 7:
            blocks.append(U)
    if not blocks:
        raise Skip
    blocks.sort(key=lambda U: -np.trace(U[mI]).real / U.shape[-1])
    N = sum(b.shape[-1] for b in blocks)
    D = np.zeros((len(ref), N, N), complex)
    o = 0
    for b in blocks:
        D[:, o:o + b.shape[-1], o:o + b.shape[-1]] = b
        o += b.shape[-1]
    if np.abs(D.imag).max() == 0:
        D = D.real
    u = as_urep(sym, ref, D)
    seeds = np.concatenate([np.zeros((1, 3)), rng.integers(-2, 3, size=(int(rng.integers(1, 4)), 3))])
    n = [np.zeros(3)]
    for x in seeds:
        for s in ref:
            y = np.round(s @ x) + 0.0
            if np.any(y) and not any(np.array_equal(y, z) or np.array_equal(-y, z) for z in n):
                n.append(y)
    n = np.array(n)
    if rng.random() < 0.4:
        n = n[rng.permutation(len(n))]
    C = herm(rng.standard_normal((len(n), N, N)) + 1j * rng.standard_normal((len(n), N, N)))
    arg, dig = C.copy(), digest(u)
    Y = u.symmetrize(C, n)
    X = u.symmetrizer(n)(C)
    c.ok(np.array_equal(C, arg) and digest(u) == dig, "arguments-unchanged")
    sc = np.abs(C).max()
    c.close(X, Y, "fast-agrees-with-direct", rtol=1e-8, scale=sc, group=name)
    c.close(u.symmetrizer(n)(X), X, "idempotent", rtol=1e-8, scale=sc)
    i = u.inv_split
    par = np.where(np.arange(N) < i, 1, -1)
    Hr = X * np.where(np.outer(par, par) < 0, 1j, 1)
    i0 = int(np.argmin(np.linalg.norm(n, axis=1)))
    Rs = np.concatenate([n[i0:i0 + 1], np.delete(n, i0, 0), -np.delete(n, i0, 0)])
    Hm = np.delete(Hr, i0, 0)
    R = Ref(Rs, np.concatenate([Hr[i0:i0 + 1], Hm, np.conj(np.swapaxes(Hm, 1, 2))]))
    amp = max(R.scale(), 1e-6 * sc)
    for k in rng.uniform(-1, 1, (2, 3)):
        for g in rng.permutation(len(ref))[:8]:
            c.close(R.H(ref[g] @ k), D[g] @ R.H(k) @ D[g].conj().T, "hamiltonian-at-images", rtol=1e-8, scale=amp, group=name, op=ref[g])
    with quiet():
        c.ok(u.check_symmetry(lambda k: R.H(np.asarray(k))), "check_symmetry-accepts")
        E = herm(rng.standard_normal((N, N)))
        dirty = lambda k: R.H(np.asarray(k)) + max(amp, sc) * np.sin(2 * np.pi * np.asarray(k) @ [1., 2, 0])[..., None, None] * np.eye(N)
        c.ok(not u.check_symmetry(dirty), "check_symmetry-rejects")
    # little-group projection of single matrices
    ks = np.array([rng.integers(-2, 3, 3) * 0.25, rng.uniform(-1, 1, 3), np.zeros(3), [0.5, 0, 0]])
    M = rng.standard_normal((len(ks), N, N)) + 1j * rng.standard_normal((len(ks), N, N))
    Z = u.symmetrize2(ks, M)
    for k, m, z in zip(ks, M, Z):
        off_k = np.abs(np.einsum("gij,j->gi", ref, k) - k).max(1)
        if np.any((off_k > 1e-9) & (off_k < 1e-2)):
            continue  # nearly invariant
        little = [g for g in range(len(ref)) if np.abs(ref[g] @ k - k).max() < 1e-9]
        c.close(z, np.mean([D[g] @ m @ D[g].conj().T for g in little], axis=0), "little-group-mean", rtol=1e-9, scale=np.abs(M).max(), k=k)
    # realising matrices on all images
    ks = np.array([rng.uniform(-1, 1, 3), [0.5, 0.25, 0.0]])
    for inverse in (False, True):
        Rk = R if not inverse else None
        kk, full = u.realize_symmetric_matrices(ks, R.H(ks), sorted=bool(rng.random() < 0.5), inverse=inverse)
        want = set(tuple(np.round(s @ k, 6) + 0.0) for k in ks for s in ref)
        c.ok(len(kk) == len(want) == len({tuple(np.round(x, 6) + 0.0) for x in kk}), "realize-all-images-once", f"{len(kk)} {len(want)}")
        if not inverse:
            c.close(full, R.H(kk), "realize-hamiltonians", rtol=1e-8, scale=amp, group=name)
        # a point in general position: one operation for every image
        M = rng.standard_normal((1, N, N)) + 1j * rng.standard_normal((1, N, N))
        kk, full = u.realize_symmetric_matrices(ks[:1], M, sorted=bool(rng.random() < 0.5), inverse=inverse)
        for x, f in zip(kk, full):
            dist = np.linalg.norm(ref @ ks[0] - x, axis=1)
            if np.sort(dist)[1] > 1e-2:
                V = D[np.argmin(dist)]
                V = V.conj().T if inverse else V
                c.close(f, V @ M[0] @ V.conj().T, "realize-matrix-of-the-operation", rtol=1e-9, scale=np.abs(M).max(), inverse=inverse)
    c.key(ref, n, D)
    c.note(group=name, order=len(ref), inv_split=i, dim=N, neighbors=len(n))
