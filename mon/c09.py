"""C09 point groups: every group object that comes out of the library is judged against the group axioms and a plain-set reference."""
import scipy.linalg
from .core import *
from .groups import *

P = "C09"


def dim_of(rng):
    return int(rng.choice([1, 2, 2, 3, 3, 3, 3]))


@workload(P, quick=300, thorough=4000)
def named_groups(c, rng):
    name, f, ref = named(rng, dim_of(rng))
    s = f()
    judge_group(c, s, len(ref), ref, "named:" + name.split("(")[0])
    c.ok(s.check(), "check-accepts")
    c.ok(s.dim() == ref.shape[1] and s.space_dim() == ref.shape[1] and not s.projective, "dimension")
    c.ok(s.is_orthogonal(), "orthogonal")
    c.ok(s == s.copy() and s == make(ref, rng), "equal-to-same-set")
    c.ok(s in s, "contains-itself")
    c.ok(Symmetry.none(s.dim()) in s, "contains-trivial")
    # documented default: three dimensions
    for f, n in [(Symmetry.none, 1), (Symmetry.inv, 2), (Symmetry.mirror_x, 2), (Symmetry.mirror_xy, None)]:
        x = f()
        c.ok(x.dim() == 3 and x.space_dim() == 3 and x == f(dim=3) and n in (None, len(x)), "default-dimension", f"{f.__name__} {x.dim()} {len(x)}")
    c.key(name)
    c.note(name=name, order=len(ref))


@workload(P, quick=300, thorough=4000)
def generated(c, rng):
    """closure of generator sets, products, subgroup tests and equality against plain sets"""
    d = dim_of(rng)
    while True:
        name, _, ref = named(rng, d)
        if len(ref) <= 60:
            break
    B = crystal(rng, ref)
    Bi = np.linalg.inv(B)
    conj = np.array([B @ s @ Bi for s in ref])
    pick = [conj[rng.integers(len(conj), size=int(rng.integers(1, 4)))] for _ in range(2)]
    if rng.random() < 0.3:
        pick[0] = np.concatenate([pick[0], pick[0][:1], np.eye(d)[None]])  # repeated and trivial generators
    invs = [bool(rng.random() < 0.3), bool(rng.random() < 0.3)]
    refs = [closure(list(p) + ([-np.eye(d)] if i else [])) for p, i in zip(pick, invs)]
    before = digest(pick)
    syms = [Symmetry.from_generator(p, i) for p, i in zip(pick, invs)]
    c.ok(digest(pick) == before, "generators-unchanged")
    for s, r in zip(syms, refs):
        judge_group(c, s, len(r), r, "from_generator")
        c.ok(s.check(), "check-accepts")
        c.ok(bool(s.is_orthogonal()) == bool(np.abs(r @ np.swapaxes(r, 1, 2) - np.eye(d)).max() < 1e-7) or np.abs(r @ np.swapaxes(r, 1, 2) - np.eye(d)).max() < 1e-4, "is_orthogonal")
    rp = closure(list(refs[0]) + list(refs[1]))
    state = digest(syms)
    prod = syms[0] * syms[1]
    judge_group(c, prod, len(rp), rp, "product")
    for a, ra in zip(syms, refs):
        c.ok((a in prod), "product-contains-factors")
    g = make(conj, rng)
    for a, ra in zip(syms, refs):
        for b, rb in [(syms[0], refs[0]), (syms[1], refs[1]), (g, conj)]:
            sub = all(find(x, rb) is not None for x in ra)
            c.ok((a in b) == sub, "subgroup-test", f"{a} in {b} should be {sub}")
            eq = same_set(ra, rb)
            c.ok((a == b) == eq, "equality", f"{a} == {b} should be {eq}")
    c.ok(digest(syms) == state, "operands-unchanged")
    c.key(conj, pick)
    c.note(name=name, orders=[len(r) for r in refs], product=len(rp))


@workload(P, quick=150, thorough=2000)
def equality_hostile(c, rng):
    """groups of the same order that share most elements, inversion given as flag or as matrix, not-closed sets"""
    ref = []
    for _ in range(2):
        n, r = small(rng, 3, 48)
        ref.append(r)
    a, b = ref
    sa, sb = make(a, rng), make(b, rng)
    sub = all(find(x, b) is not None for x in a)
    c.ok((sa == sb) == same_set(a, b), "equality")
    c.ok((sa in sb) == sub, "subgroup-test", f"{sa} in {sb} should be {sub}")
    # the flag and the explicit inversion mean the same
    h = a
    full = closure(list(h) + [-np.eye(3)])
    if find(-np.eye(3), h) is None:
        f = Symmetry(make(h).S, inversion=True)
        c.ok(f == make(full, rng) and make(full, rng) == f, "inversion-flag-equals-matrix", f"{len(h)}")
        c.ok(len(f) == len(full), "inversion-flag-order")
        c.ok(make(h, rng) in f, "half-in-full")
        c.ok(not (f == make(h, rng)), "equality")
    # incomplete set
    if len(a) > 2:
        drop = np.delete(a, find(np.eye(3), a), axis=0)
        gone = int(rng.integers(len(drop)))
        part = np.concatenate([np.eye(3)[None], np.delete(drop, gone, axis=0)])
        bad = Symmetry(part)
        if len(closure(list(part))) != len(ops_of(bad)) or len(ops_of(bad)) != len(part):
            good = False
            try:
                good = bool(bad.check())
            except ValueError:
                pass
            c.ok(not good or same_set(ops_of(bad), closure(list(ops_of(bad)))), "check-rejects-non-group", f"{len(part)}")
    # almost the same group is not the same group
    if len(a) > 1:
        X = rng.standard_normal((3, 3))
        turn = scipy.linalg.expm((X - X.T) * 10 ** rng.uniform(-4.5, -2))
        t = np.array([turn @ x @ turn.T for x in a])
        dev = max(min(np.abs(x - y).max() for y in a) for x in t)
        if dev > 2e-5:
            c.ok(not (Symmetry(t) == sa) and not (sa == Symmetry(t)), "almost-equal-groups-differ", f"{len(a)} {dev}")
            c.event("almost equal")
    c.key(a, b)


@workload(P, quick=200, thorough=3000)
def derived(c, rng):
    """transform, transpose, dual, copies: the exact images of the operations"""
    d = dim_of(rng)
    name, ref = small(rng, d, 48)
    s = make(ref, rng)
    B = crystal(rng, ref)
    state = digest(s, B)
    t = s.transform(B)
    Bi = np.linalg.inv(B)
    judge_group(c, t, len(ref), np.array([B @ x @ Bi for x in ref]), "transform")
    c.ok(digest(s, B) == state, "transform-keeps-source")
    judge_group(c, t.dual(), len(ref), np.array([np.linalg.inv(B @ x @ Bi).T for x in ref]), "dual")
    judge_group(c, t.transpose(), len(ref), np.array([(B @ x @ Bi).T for x in ref]), "transpose")
    c.ok(same_set(ops_of(t.dual().dual()), ops_of(t)), "dual-of-dual")
    back = t.transform(Bi)
    c.ok(same_set(ops_of(back), ref), "transform-back")
    judge_group(c, t.copy(), len(ref), ops_of(t), "copy")
    # conjugation keeps membership
    name2, ref2 = small(rng, d, 24)
    sub = all(find(x, ref) is not None for x in ref2)
    c.ok((make(ref2).transform(B) in t) == sub, "subgroup-test-transformed")
    c.key(ref, B)


@workload(P, quick=200, thorough=3000)
def classes(c, rng):
    d = dim_of(rng)
    name, ref = small(rng, d, 60)
    if rng.random() < 0.4:
        B = crystal(rng, ref)
        ref = np.array([B @ x @ np.linalg.inv(B) for x in ref])
    s = make(ref, rng)
    ops = ops_of(s)
    state = digest(s)

    def partition(cls, mech):
        c.ok(sum(len(k) for k in cls) == len(ops), f"{mech}:partition-size", f"{[len(k) for k in cls]} of {len(ops)}")
        lab = np.full(len(ops), -1)
        for i, k in enumerate(cls):
            for m in k:
                j = find(np.asarray(m), ops)
                c.ok(j is not None and lab[j] < 0, f"{mech}:partition")
                lab[j] = i
        return lab
    lab = partition(s.conjugacy_classes(), "conjugacy")
    for i, x in enumerate(ops):
        orbit = {find(g @ x @ np.linalg.inv(g), ops, 1e-5) for g in ops}
        c.ok(orbit == set(np.flatnonzero(lab == lab[i])), "conjugacy:class-is-orbit", f"{len(orbit)}")
    # an arbitrary equivalence relation
    lab = partition(s.equivalence_classes(lambda a, b: abs(np.trace(a) - np.trace(b)) < 1e-6), "equivalence")
    tr = np.einsum("nii->n", ops)
    for i in range(len(ops)):
        c.ok(np.all((np.abs(tr - tr[i]) < 1e-6) == (lab == lab[i])), "equivalence:relation")
    c.ok(digest(s) == state, "classes-keep-group")
    c.key(ref)


@workload(P, quick=150, thorough=2500)
def subgroups(c, rng):
    """subgroup(class function), subgroup of space groups without translations"""
    d = dim_of(rng)
    name, ref = small(rng, d, 60)
    s = make(ref, rng)
    kind = int(rng.integers(3))
    state = digest(s)
    if kind == 0:
        f = np.linalg.det
        want = ref[np.linalg.det(ref) > 0]
    elif kind == 1:
        f = lambda x: 1.0
        want = ref
    else:
        # a one dimensional character: det restricted to the parity of a permutation-like action = sign of the permutation on all axes
        pts = np.concatenate([np.eye(d), -np.eye(d)])
        if not np.allclose(np.abs(ref).sum(axis=2), 1) or np.abs(np.abs(ref) - np.round(np.abs(ref))).max() > 1e-9:
            raise Skip()

        def f(x):
            return np.linalg.det(np.abs(np.round(x)))
        want = np.array([x for x in ref if f(x) > 0])
    sub = s.subgroup(f)
    judge_group(c, sub, len(want), want, "subgroup")
    c.ok(sub in s, "subgroup-in-group")
    c.ok(digest(s) == state, "subgroup-keeps-group")
    c.key(ref, kind)


@workload(P, quick=100, thorough=1500)
def space_groups(c, rng):
    """point groups of (symmorphic, glide-like order two) space groups"""
    d = int(rng.choice([2, 3]))
    name, ref = small(rng, d, 24)
    if rng.random() < 0.5:  # the group G x {1, t}-like extension: an operation of order two gets half a translation which it inverts
        # conjugation by a translation: x -> R x + (1 - R) tau
        tau = rng.random(d)
    else:
        tau = np.zeros(d)
    order = np.argsort([not np.allclose(x, np.eye(d)) for x in ref], kind="stable")
    ref = ref[order]
    aff = np.array([np.block([[x, ((np.eye(d) - x) @ tau)[:, None]], [np.zeros((1, d)), np.ones((1, 1))]]) for x in ref])
    s = Symmetry.space_group(aff, dim=d)
    c.ok(s.projective and s.space_dim() == d and s.dim() == d + 1 and len(s) == len(ref), "space-group-flag")
    p = Symmetry.point_group(aff, dim=d)
    judge_group(c, p, len(ref), ref, "point_group")
    c.ok(not p.projective and p.space_dim() == d, "point-group-flag")
    fixed = np.array([x for x in ref if np.abs((np.eye(d) - x) @ tau).max() < 1e-9])
    q = Symmetry.strict_point_group(aff, dim=d)
    judge_group(c, q, len(fixed), fixed, "strict_point_group")
    plain = Symmetry.point_group(ref, dim=d)
    judge_group(c, plain, len(ref), ref, "point_group-plain")
    judge_group(c, Symmetry.strict_point_group(ref, dim=d), len(ref), ref, "strict_point_group-plain")
    B = crystal(rng, ref)
    t = s.transform(B)
    Bi = np.linalg.inv(B)
    want = np.array([np.block([[B @ x @ Bi, (B @ (np.eye(d) - x) @ tau)[:, None]], [np.zeros((1, d)), np.ones((1, 1))]]) for x in ref])
    c.ok(t.projective and same_set(t.S, want), "space-group-transform")
    c.ok(s.copy().projective and same_set(s.copy().S, aff), "space-group-copy")
    c.key(aff)


@workload(P, quick=200, thorough=2500)
def quotients(c, rng):
    d = int(rng.choice([1, 2, 3, 3]))
    name, ref = small(rng, d, 48)
    sub = [np.eye(d)[None], ref]
    for _ in range(3):
        sub.append(closure(list(ref[rng.integers(len(ref), size=int(rng.integers(1, 3)))])))
    N = sub[int(rng.integers(len(sub)))]
    G, H = make(ref, rng), make(N, rng)
    normal = all(find(g @ x @ np.linalg.inv(g), N, 1e-5) is not None for x in N for g in ref)
    # cosets and the (order independent) minimal order representatives
    left = [i for i in range(len(ref))]
    reps, unique = [], True

    def order(m):
        p, k = m, 1
        while np.abs(p - np.eye(d)).max() > 1e-6:
            p, k = p @ m, k + 1
        return k
    while left:
        i = left[0]
        cos = [j for j in left if find(np.linalg.inv(ref[i]) @ ref[j], N) is not None]
        left = [j for j in left if j not in cos]
        o = [order(ref[j]) for j in cos]
        unique &= o.count(min(o)) == 1
        reps.append(ref[cos[int(np.argmin(o))]])
    reps = np.array(reps)
    obvious = unique and all(find(a @ b, reps) is not None for a in reps for b in reps)
    state = digest(G, H)
    try:
        Q = G / H
    except ValueError as e:
        c.event("quotient-refused")
        if normal and obvious:
            c.fail("quotient-refused", f"{name}: {len(ref)}/{len(N)} has the obvious complement of minimal order representatives: {e}")
        c.evaluations += 1
        return
    c.ok(normal, "quotient-of-non-normal", f"{name}: {len(ref)}/{len(N)} returned {Q}")
    q = judge_group(c, Q, len(ref) // len(N), None, "quotient")
    c.ok(all(find(x, ref) is not None for x in q), "quotient-elements-in-group")
    c.ok(sum(find(x, N) is not None for x in q) == 1, "quotient-meets-divisor-trivially")
    if obvious:
        c.ok(same_set(q, reps), "quotient-minimal-representatives")
    c.ok(digest(G, H) == state, "quotient-keeps-operands")
    c.key(ref, N)
    c.note(name=name, group=len(ref), divisor=len(N), quotient=len(q))


@workload(P, quick=100, thorough=1500)
def invariance_test(c, rng):
    """check_symmetry accepts invariant functions and rejects functions that one operation changes"""
    d = dim_of(rng)
    name, ref = small(rng, d, 48)
    s = make(ref, rng)
    v = rng.standard_normal((3, d))

    def f(x):
        return np.sum(np.cos(2 * ref @ x @ v.T), axis=0).sum() + np.sum(np.sin(ref @ x @ v[0]))
    c.ok(s.check_symmetry(f, verbose=False), "accepts-invariant")
    if len(ref) > 1:
        g = lambda x: np.sin(v[0] @ x) + np.cos(v[1] @ x + 1)
        c.ok(not s.check_symmetry(g, verbose=False), "rejects-not-invariant")
        if find(-np.eye(d), ref) is not None:
            half = ref[np.linalg.det(ref) > 0] if d % 2 == 1 else None
            if half is not None:
                g = lambda x: np.sum(np.sin(half @ x @ v[0]))  # odd under inversion, even under the proper half
                if abs(g(rng.random(d))) > 1e-3:
                    c.ok(not s.check_symmetry(g, verbose=False), "rejects-odd-function")
    c.key(ref, v)


@workload(P, quick=30, thorough=300)
def rejects(c, rng):
    """not-unimodular matrices, wrong first element and endless generators are refused"""
    d = int(rng.integers(1, 4))
    for bad in ([np.eye(d) * 1.1], [-np.eye(d)], [np.eye(d), np.eye(d) * 2]):
        try:
            Symmetry(bad)
            c.fail("constructor-accepts-invalid", f"{bad}")
        except ValueError:
            c.ok(True, "constructor-rejects")
    if d > 1:
        a = rng.uniform(0.1, 0.2) * np.pi
        m = np.eye(d)
        m[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
        try:
            Symmetry.from_generator([m], False)
            c.fail("generator-accepts-infinite", f"{m}")
        except ValueError:
            c.ok(True, "generator-rejects-infinite")
    c.key(d, rng.integers(1000))


@workload(P, quick=4, thorough=20)
def quotient_known(c, rng):
    """recorded finding: the representative selection depends on the order of the elements"""
    T, V = Symmetry.tetrahedral(False), Symmetry.mirror3(False)
    try:
        q = T / V
    except ValueError as e:
        c.fail("quotient-order-dependent", f"T / V4 refused: {e}")
    judge_group(c, q, 3, None, "quotient")
