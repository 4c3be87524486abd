"""C12 representations: every constructed object is judged as a homomorphism on the full group, against characters and explicit sums/products."""
from .core import *
from .reps import *

P = "C12"


def irrep(rng, inv=True):
    """random named irrep of the cubic group with its Mulliken name and parity"""
    i = int(rng.integers(7))
    if i < 4 and inv:
        return [(UR.o3, "T1", -1), (UR.so3, "T1", 1), (UR.o3ri, "T2", -1), (UR.o3r, "T2", 1)][i] + ("",)
    if i == 4 or (i < 4 and rng.random() < 0.5):
        neg = bool(rng.random() < 0.5)
        return (lambda: UR.d3(neg, inv), "E", -1 if neg else 1, f"d3({neg})")
    a, neg = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    return (lambda: UR.one_dim(a, neg, inv), "A2" if a else "A1", -1 if neg else 1, f"one_dim({a},{neg})")


def cubic_ref(inv):
    ops = signed_perms(det=1)
    return np.concatenate([ops, -ops]) if inv else ops


def judge_irrep(c, u, name, parity, inv, mech):
    ref = cubic_ref(inv)
    S, U = D_of(u)
    c.ok(same_set(S, ref), f"{mech}:group", f"{len(S)} operations")
    chi = np.einsum("nii->n", U)
    want = np.array([TABLE[name][o_class(s * np.sign(np.linalg.det(s)))] * (parity if np.linalg.det(s) < 0 else 1) for s in S])
    c.close(chi, want, f"{mech}:characters", rtol=0, atol=1e-7)


@workload(P, quick=60, thorough=400)
def named_irreps(c, rng):
    inv = bool(rng.random() < 0.7)
    f, name, parity, note = irrep(rng, inv)
    u = f()
    judge_rep(c, u, "named", rng)
    judge_irrep(c, u, name, parity, inv, "named")
    with quiet():
        c.ok(u.check(), "check-accepts-representation")
        bad = u.copy()
        j = int(rng.integers(1, len(bad.U)))
        bad.U[j] = -bad.U[j] if rng.random() < 0.5 and bad.dim() > 1 else bad.U[j] * np.exp(1j * rng.uniform(0.3, 2)).real
        c.ok(not bad.check(), "check-rejects-broken-matrix", f"{name} {note}", index=j)
        if inv and u.dim() > 1:
            bad = u.copy()
            bad.inv_split = int(rng.integers(1, u.dim()))
            c.ok(not bad.check(), "check-rejects-broken-parity")
    # the matrices are not shared between calls or with the group
    u.U *= 2.0 if u.U.dtype.kind in "fc" else 2
    judge_irrep(c, f(), name, parity, inv, "named-again")
    c.key(name, parity, inv)


@workload(P, quick=60, thorough=400)
def named_in_place(c, rng):
    """permuting and matching the named representations themselves (not copies): only the matrices and the order of the group change"""
    f, name, parity, note = irrep(rng, True)
    u = f()
    S0 = np.array(u.sym.S, float)
    U0 = np.array(u.U)
    order = rng.permutation(u.dim())
    other = u * 2 if rng.random() < .5 else u + f()
    oS, oU = np.array(other.sym.S, float), np.array(other.U)
    u.permute(list(order))
    c.key(name, order)
    c.event(name)
    c.ok(np.array_equal(u.sym.S, S0), "permute:group-unchanged", f"permuting the basis of {name} {note} changed the operations of its group")
    c.close(u.U, U0[:, order][:, :, order], "permute:matrices", rtol=0, atol=1e-12)
    c.ok(np.array_equal(other.sym.S, oS) and np.array_equal(other.U, oU), "permute:derived-unchanged", "a sum or multiple built before the permutation changed")
    judge_rep(c, u, "named-permuted", rng, n=6)
    judge_irrep(c, u, name, parity, True, "named-permuted")
    p = np.r_[0, 1 + rng.permutation(len(S0) - 1)]
    s2 = Symmetry(np.array(S0[p]), inversion=True)
    U1 = np.array(u.U)
    u.match_sym(s2)
    c.close(u.U, U1[p], "match:matrices", rtol=0, atol=1e-12)
    c.ok(np.array_equal(other.sym.S, oS) and np.array_equal(other.U, oU), "match:derived-unchanged")
    judge_irrep(c, u, name, parity, True, "named-matched")


@workload(P, quick=120, thorough=1500)
def generated(c, rng):
    d = int(rng.choice([2, 3, 3]))
    name, ref = small(rng, d, 48)
    pure = find(-np.eye(d), ref) is None
    if rng.random() < 0.4:
        B = crystal(rng, ref)
        ref = np.array([B @ x @ np.linalg.inv(B) for x in ref])
    nm, U = (lambda L: L[int(rng.integers(len(L)))])(some_reps(ref, rng))
    # generators: random elements until they generate everything
    i0 = find(np.eye(d), ref)
    gens = [i0] if rng.random() < 0.5 or len(ref) == 1 else [int(rng.integers(len(ref)))]
    while len(closure(ref[gens])) < len(ref):
        gens.append(int(rng.integers(len(ref))))
    inv = bool(pure and rng.random() < 0.5)
    neg = bool(rng.random() < 0.5)
    SG, UG = ref[gens], U[gens]
    if rng.random() < 0.5:
        SG, UG = [[list(r) for r in s] for s in SG], [[list(r) for r in u] for u in UG]
    state = digest(SG, UG)
    u = UR.from_generator(SG, UG, inv, neg)
    c.ok(digest(SG, UG) == state, "arguments-unchanged")
    judge_rep(c, u, "generated", rng)
    S, D = D_of(u)
    full = np.concatenate([ref, -ref]) if inv else ref
    fullU = np.concatenate([U, -U if neg else U]) if inv else U
    if not pure and d == 3:
        neg = U[find(-np.eye(d), ref)][0, 0] < 0
    c.ok(same_set(S, full), "generated:group", f"{len(S)} != {len(full)} {name} {nm}")
    c.close(D, fullU[lookup(full, S)], "generated:matrices", rtol=0, atol=1e-6)
    if u.sym.inversion:
        c.ok(u.inv_split == (0 if neg else u.dim()), "generated:parity")
    # inconsistent generators have to fail
    if len(ref) > 2:
        g = int(rng.integers(len(ref)))
        if g != i0:
            try:
                v = UR.from_generator(np.concatenate([ref[[i0]], ref[gens], ref[[g]]]), np.concatenate([U[[i0]], U[gens], U[[g]] * np.exp(0.7j)]), inv, neg)
                c.fail("inconsistent-generators-accepted", f"{name} {nm}", g=ref[g])
            except AssertionError:
                c.ok(True, "inconsistent-generators-rejected")
    c.key(ref, nm, inv, neg)
    c.note(group=name, rep=nm, order=len(S), generators=len(gens))


def perm_similar(A, B, perm):
    return np.abs(A - B[:, perm][:, :, perm]).max() if A.shape == B.shape else np.inf


@workload(P, quick=120, thorough=1500)
def sums_products(c, rng):
    """expressions of irreps against explicit direct sums / Kronecker products"""
    inv = bool(rng.random() < 0.75)

    def leaf():
        f, name, parity, note = irrep(rng, inv)
        u = f()
        if rng.random() < 0.5:  # other element order
            s = u.sym.copy()
            s.S = s.S[np.r_[0, 1 + rng.permutation(len(s.S) - 1)]]
            u.match_sym(s)
        return u
    u = leaf()
    ref = cubic_ref(inv)
    S0, D0 = D_of(u)
    D = D0[lookup(S0, ref)]
    ops = []
    for step in range(int(rng.integers(1, 5))):
        if u.dim() > 16:
            break
        op = int(rng.integers(4))
        pre = digest(u)
        if op == 0:
            n = int(rng.integers(1, 4))
            r = u * (n if rng.random() < 0.5 else np.int64(n))
            ops.append(f"*{n}")
            want = np.kron(D, np.eye(n))
        else:
            v = leaf()
            if op == 1 and rng.random() < 0.3:
                v = v + leaf()
            Sv, Dv = D_of(v)
            Dv = Dv[lookup(Sv, ref)]
            mixed = all(0 < x.inv_split < x.dim() for x in (u, v))
            swap = bool(rng.random() < 0.5)
            prev = digest(v)
            a, b = (v, u) if swap else (u, v)
            Da, Db = (Dv, D) if swap else (D, Dv)
            try:
                if op == 3 and u.dim() * v.dim() <= 24:
                    r = a * b
                    ops.append("*rep")
                    want = np.array([np.kron(x, y) for x, y in zip(Da, Db)])
                else:
                    r = a + b
                    ops.append("+rep")
                    want = np.zeros((len(ref),) + (u.dim() + v.dim(),) * 2, complex)
                    want[:, :a.dim(), :a.dim()] = Da
                    want[:, a.dim():, a.dim():] = Db
                c.ok(not mixed or not inv, "mixed-parity-rejected", "accepted two representations of mixed parity")
            except ValueError:
                c.ok(mixed, "pure-parity-accepted", f"{ops}")
                return
            c.ok(digest(v) == prev, "operand-unchanged")
        c.ok(digest(u) == pre, "operand-unchanged")
        S, Dr = D_of(r)
        c.ok(same_set(S, ref), "expression:group")
        Dr = Dr[lookup(S, ref)]
        c.close(np.einsum("nii->n", Dr), np.einsum("nii->n", want), "expression:characters", rtol=0, atol=1e-7, ops=ops)
        # the same matrices up to one reordering of the basis: compare the multiset of (diagonal, row fingerprints), fixed for all operations
        w = rng.standard_normal(len(ref))
        M, W = np.einsum("n,nij->ij", w, Dr), np.einsum("n,nij->ij", w, want)
        c.close(np.sort(np.diag(M).real), np.sort(np.diag(W).real), "expression:basis", rtol=0, atol=1e-6, ops=ops)
        c.close(np.sort(np.abs(M).ravel()), np.sort(np.abs(W).ravel()), "expression:basis", rtol=0, atol=1e-6, ops=ops)
        u, D = r, Dr
        judge_rep(c, u, "expression", rng, n=8)
    c.key(D, inv)
    c.note(ops=ops, dim=u.dim(), inv_split=u.inv_split, inversion=inv)


@workload(P, quick=120, thorough=1500)
def permute_match(c, rng):
    d = int(rng.choice([2, 3, 3]))
    name, ref = small(rng, d, 24)
    i = find(-np.eye(d), ref)
    inv = False
    if i is not None and d == 3:
        ref, inv = ref[np.linalg.det(ref) > 0], True  # inversion is kept apart from the other operations
    elif d == 3 and rng.random() < 0.6:
        inv = True
    sym = Symmetry(np.concatenate([ref[[find(np.eye(d), ref)]], np.delete(ref, find(np.eye(d), ref), 0)]), inversion=inv)
    reps = some_reps(ref, rng)
    blocks = [reps[int(rng.integers(len(reps)))][1] for _ in range(int(rng.integers(1, 4)))]
    par = sorted([1 if rng.random() < 0.5 else -1 for _ in blocks], reverse=True)
    N = sum(b.shape[-1] for b in blocks)
    U = np.zeros((len(ref), N, N), complex if any(np.iscomplexobj(b) for b in blocks) else float)
    n = 0
    for b in blocks:
        U[:, n:n + b.shape[-1], n:n + b.shape[-1]] = b
        n += b.shape[-1]
    split = sum(b.shape[-1] for b, p in zip(blocks, par) if p > 0) if inv else N
    u = UR(sym, N)
    c.close(u.U, np.broadcast_to(np.eye(N), (len(ref), N, N)), "identity-representation")
    c.ok(u.inv_split == N, "identity-representation")
    u.U = np.array([U[find(s, ref)] for s in sym.S])
    u.inv_split = split
    S, D = judge_rep(c, u, "constructed", rng)
    # permutation inside of the parity blocks
    order = np.r_[rng.permutation(split), split + rng.permutation(N - split)].astype(int)
    v = u.copy()
    dig = digest(u)
    v.permute(order if rng.random() < 0.5 else list(order))
    S2, D2 = judge_rep(c, v, "permuted", rng, n=6)
    c.close(D2, D[:, order][:, :, order], "permute:matrices", rtol=0, atol=1e-12)
    c.ok(v.inv_split == split, "permute:parity")
    c.ok(digest(u) == dig, "copy-independent-of-permute")
    if 0 < split < N:
        bad = np.arange(N)
        bad[0], bad[N - 1] = N - 1, 0
        try:
            u.copy().permute(bad)
            c.fail("permute-mixing-parity-accepted", f"{bad}")
        except AssertionError:
            c.ok(True, "permute-mixing-parity-rejected")
    # matching to a reordered group
    s2 = Symmetry(sym.S[np.r_[0, 1 + rng.permutation(len(sym.S) - 1)]], inversion=inv)
    v = u.copy()
    v.match_sym(s2)
    S3, D3 = D_of(v)
    c.close(np.asarray(v.sym.S, float), np.asarray(s2.S, float), "match:order", rtol=0, atol=1e-9)
    c.close(D3, D[lookup(S, S3)], "match:matrices", rtol=0, atol=1e-12)
    c.ok(v.inv_split == split and digest(u) == dig, "match:copy-independent")
    # refuses other groups
    others = [Symmetry(sym.S, inversion=not inv)] if d % 2 else []
    if len(ref) > 1:
        others.append(Symmetry(sym.S[:1], inversion=inv))
        Q = np.linalg.qr(rng.standard_normal((d, d)))[0]
        rotated = np.array([Q @ s @ Q.T for s in sym.S])
        if not same_set(rotated, np.asarray(sym.S, float), 1e-3):
            others.append(Symmetry(rotated, inversion=inv))
    for o in others:
        for what in ("match", "add"):
            try:
                if what == "match":
                    u.copy().match_sym(o)
                else:
                    w = UR(o, 1)
                    u + w
                c.fail("unequal-groups-accepted", f"{what} {name}")
            except ValueError:
                c.ok(True, "unequal-groups-rejected")
    # copies are independent
    v = u.copy()
    v.U *= 1.5
    v.inv_split = 0
    v.sym.S = v.sym.S[:1]
    c.ok(digest(u) == dig, "copy-independent")
    c.key(ref, U, inv)


@workload(P, quick=60, thorough=500)
def blocks(c, rng):
    """subspaces() reports the irreps of a direct sum"""
    parts = []
    u = None
    for _ in range(int(rng.integers(1, 5))):
        f, name, parity, note = irrep(rng)
        v = f()
        if u is None:
            u = v
        else:
            try:
                u = u + v
            except ValueError:
                continue
        parts.append(v.dim())
    groups, counts = u.subspaces()
    c.ok(sorted(np.asarray(counts).tolist()) == sorted(parts), "subspace-dimensions", f"{counts} {parts}")
    g = np.asarray(groups).astype(int)
    c.ok(np.all(g.sum(0) == 1) and np.all(g.sum(1) == counts), "subspaces-partition-the-basis")
    D = np.abs(D_of(u)[1]).max(0) > 1e-7
    for row in g.astype(bool):
        c.ok(not np.any(D[np.ix_(row, ~row)]), "subspaces-invariant")
    c.key(g)


@workload(P, quick=80, thorough=800)
def orbital_reps(c, rng):
    """the orbital content appended to a Hamiltonian symmetry is a representation of its group"""
    from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry
    d = int(rng.choice([1, 2, 3, 3, 3]))
    name, ref = small(rng, d, 48)
    sym = make(ref, rng)
    if find(-np.eye(d), ref) is None and d == 3 and rng.random() < 0.3:
        sym = Symmetry(sym.S, inversion=True)
        ref = np.concatenate([ref, -ref])
    h = HamiltonianSymmetry(sym)
    dig = digest(sym)
    todo = list(rng.choice(["s", "p", "d3", "custom"], size=int(rng.integers(1, 5))))
    signed = d == 3 and np.all(np.sum(np.abs(ref) > 1e-9, axis=1) == 1)
    if signed:
        todo += list(rng.choice(["diamond_s", "diamond_p", "diamond_d3"], size=2))
    if same_set(ref, cubic_ref(True)) or same_set(ref, cubic_ref(False)):
        todo.append("d2")
    pos = lambda: rng.integers(0, 2, size=d) / 2
    want, names = [], []
    det = np.sign(np.linalg.det(ref))
    for t in todo:
        at = len(h.U)
        if t == "custom":
            nm, U = (lambda L: L[int(rng.integers(len(L)))])(some_reps(ref, rng))
            if sym.inversion and np.abs(np.abs(np.trace(U[find(-np.eye(d), ref)])) - U.shape[-1]) > 1e-9:
                continue
            u = as_urep(sym, ref, U)
            h.append(u, pos(), "x")
            u.U *= 3  # the appended one is a copy
            w = [U]
        else:
            getattr(h, "append_" + t)(pos(), t)
            U = ref * 1.0
            w = dict(s=[np.ones((len(ref), 1, 1))], p=[U], d3=[U * det[:, None, None]]).get(t)
            if t == "d2":  # (2z2-x2-y2)/sqrt3, x2-y2 as quadratic forms
                Q = [np.diag([-1, -1, 2]) / 3**0.5, np.diag([1, -1, 0])]
                w = [np.array([[[np.trace(q1 @ s @ q2 @ s.T) / 2 for q2 in Q] for q1 in Q] for s in ref])]
        for k, uu in enumerate(h.U[at:]):
            S, D = judge_rep(c, uu, f"orbital-{t if t != 'custom' else 'custom'}", rng, n=6)
            c.ok(same_set(S, ref), f"orbital:group")
            if w is not None:
                c.close(D, w[k][lookup(ref, S)], f"orbital-{t}:matrices", rtol=0, atol=1e-7)
            names += [t if t != "custom" else "x"] * uu.dim()
        if t.startswith("diamond"):
            c.ok(sum(x.dim() for x in h.U[at:]) == (2 if t == "diamond_s" else 6), "orbital:diamond-dimension")
            # judged where the group is split into rotations and inversion, or has no inversion element at all
            if np.all(np.linalg.det(sym.S) > 0) if sym.inversion else (t != "diamond_d3" or np.all(det > 0)):
                # two sublattices, swapped by every operation that maps (1, 1, 1) out of its tetrahedron (with inversion: all odd)
                stay = np.prod(ref @ np.ones(3), axis=1) > 0
                base = dict(diamond_s=np.ones(len(ref)), diamond_p=np.trace(ref, axis1=1, axis2=2), diamond_d3=np.trace(ref, axis1=1, axis2=2) * det)[t]
                want_chi = 2 * base * stay * (det if sym.inversion else 1)
                chi = 0
                for uu in h.U[at:]:
                    S, D = D_of(uu)
                    chi = chi + np.trace(D, axis1=1, axis2=2)[lookup(S, ref)]
                c.close(chi, want_chi, "orbital:diamond-characters", rtol=0, atol=1e-7)
    c.ok(h.dim() == sum(u.dim() for u in h.U) == len(names), "orbital:dim", f"{h.dim()} {len(names)}")
    c.ok(len(h) == len(ref), "orbital:len")
    c.ok(len(h.pos) == len(h.U) == len(h.names), "orbital:lists")
    for i, nm in enumerate(names):
        c.ok(h.get_band_name(i).startswith(nm), "orbital:band-name", f"{i}: {h.get_band_name(i)} vs {nm}")
    try:
        h.get_band_name(len(names))
        c.fail("band-name-out-of-range", "")
    except IndexError:
        c.ok(True, "band-name-range")
    c.ok(digest(sym) == dig, "group-unchanged")
    for bad in (lambda: h.append_s(np.zeros(d + 1), "s"),):
        try:
            bad()
            c.fail("wrong-position-accepted", "")
        except ValueError:
            c.ok(True, "wrong-position-rejected")
    g = h.copy()
    c.ok(digest(g) == digest(h), "copy-equal")
    dg = digest(h)
    g.append_s(np.zeros(d), "new")
    g.U[0].U *= 2
    g.pos[0] += 1
    g.names[0] = "other"
    c.ok(digest(h) == dg, "copy-independent")
    c.key(ref, todo)
    c.note(group=name, orbitals=todo, order=len(ref))


@workload(P, quick=2, thorough=2)
def skew_p(c, rng):
    """p orbitals on a group given in crystal coordinates of a skewed lattice"""
    from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry
    B = np.linalg.inv(HEX)
    h = HamiltonianSymmetry(Symmetry(np.array([B @ rot((0, 0, 1), 2 * np.pi * k / 3) @ HEX for k in range(3)])))
    getattr(h, ["append_p", "append_d3"][c.index % 2])((0, 0, 0), "p")
    U = h.U[0].U
    if np.abs(U @ np.swapaxes(U, 1, 2) - np.eye(3)).max() > 1e-6 and np.allclose(U, h.sym.S):
        c.fail("skew-lattice-p-not-unitary", "append_p/append_d3 use the crystal-coordinate matrix as 'unitary' representation")
    judge_rep(c, h.U[0], "skew-p")
    c.key(c.index)
