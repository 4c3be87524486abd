"""Reference group machinery (plain sets of matrices) and generators of point groups."""
import itertools
import numpy as np
from tight_binding_redweasel import Symmetry


def key(m, nd=5):
    return tuple(np.round(np.asarray(m, float).ravel() + 0.0, nd) + 0.0)


def find(m, ops, tol=1e-6):
    """index of m in ops or None"""
    d = np.abs(ops - m).max(axis=(1, 2))
    j = int(np.argmin(d))
    return j if d[j] < tol else None


def same_set(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    hit = [find(x, b, tol) for x in a]
    return None not in hit and len(set(hit)) == len(b)


def closure(G, limit=250):
    G = [np.asarray(g, float) for g in G]
    ops = [np.eye(len(G[0]))]
    todo = [ops[0]]
    while todo:
        s = todo.pop()
        for g in G:
            p = s @ g
            if find(p, np.array(ops)) is None:
                ops.append(p)
                todo.append(p)
                if len(ops) > limit:
                    raise ValueError("too big")
    return np.array(ops)


def ops_of(sym):
    """all operations, built from the public fields"""
    S = np.asarray(sym.S, float)
    return np.concatenate([S, -S]) if sym.inversion else S


def judge_group(c, sym, order=None, ref=None, mech="group"):
    """group axioms of what the library calls a group"""
    ops = ops_of(sym)
    n = len(ops)
    c.ok(np.abs(ops[0] - np.eye(ops.shape[1])).max() < 1e-7, f"{mech}:identity-first")
    c.ok(len(sym) == n, f"{mech}:len", f"{len(sym)} != {n}")
    d = np.abs(ops[:, None] - ops[None]).max(axis=(2, 3)) + np.eye(n)
    c.ok(d.min() > 1e-5, f"{mech}:distinct", f"{d.min()}")
    table = np.einsum("aij,bjk->abik", ops, ops)
    for x in table.reshape(-1, *ops.shape[1:]) if n <= 24 else table[np.random.randint(n, size=600), np.random.randint(n, size=600)]:
        c.ok(find(x, ops) is not None, f"{mech}:closed", "", op=x)
    for x in ops:
        c.ok(find(np.linalg.inv(x), ops) is not None, f"{mech}:inverses")
    if order is not None:
        c.ok(n == order, f"{mech}:order", f"{n} != {order}")
    if ref is not None:
        c.ok(same_set(ops, ref), f"{mech}:elements", f"{n} elements, expected {len(ref)}")
    got = sym.get_symmetry_operations()
    c.ok(same_set(got, ops), f"{mech}:get_symmetry_operations")
    return ops


def rot(axis, a):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def signed_perms(perms=None, det=None):
    res = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i, j in enumerate(p):
                m[i, j] = s[i]
            if det is None or np.linalg.det(m) * det > 0:
                res.append(m)
    return np.array(res)


I3 = np.eye(3)
HEX = np.array([[1, -0.5, 0], [0, 3**0.5 / 2, 0], [0, 0, 1]])
HEX2 = np.array([[1, -0.5], [0, 3**0.5 / 2]])
FCC = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2.0


def named(rng, dim=3):
    """(name, thunk, reference operations) of a random named group"""
    inv = bool(rng.random() < 0.5)
    pm = (lambda ops: np.concatenate([ops, -ops]) if inv else np.asarray(ops))
    if dim == 1:
        o = [[[1.0]]] + ([[[-1.0]]] if inv else [])
        return ("o1", lambda: Symmetry.o1(inv), np.array(o))
    if dim == 2:
        i = int(rng.integers(6))
        n = int(rng.integers(1, 9))
        cn = np.array([rot((0, 0, 1), 2 * np.pi * k / n)[:2, :2] for k in range(n)])
        if i <= 1:
            return (f"o2({n})", lambda: Symmetry.o2(n), cn)
        if i == 2:
            return ("square", lambda: Symmetry.square(), closure([[[0, 1], [-1, 0]], [[1, 0], [0, -1]]]))
        if i == 3:
            return (f"mirror_x2({inv})", lambda: Symmetry.mirror_x(inv, 2), pm(np.array([np.eye(2), np.diag([-1., 1])])))
        if i == 4:
            return (f"mirror_xy2({inv})", lambda: Symmetry.mirror_xy(inv, 2), np.array([np.eye(2), -np.eye(2)]))
        return ("inv2" if inv else "none2", (lambda: Symmetry.inv(2)) if inv else (lambda: Symmetry.none(2)), pm(np.eye(2)[None]))
    n = int(rng.integers(1, 9))
    C = np.array([rot((0, 0, 1), 2 * np.pi * k / n) for k in range(n)])
    mx = np.diag([-1.0, 1, 1])
    V4 = np.array([I3, np.diag([1., -1, -1]), np.diag([-1., -1, 1]), np.diag([-1., 1, -1])])
    perms = np.array([np.eye(3)[list(p)] for p in itertools.permutations(range(3))])
    ico = None
    i = int(rng.integers(13))
    if i == 0:
        return ("none", lambda: Symmetry.none(3), I3[None])
    if i == 1:
        return ("inv", lambda: Symmetry.inv(3), np.array([I3, -I3]))
    if i == 2:
        return (f"cyclic({n},{inv})", lambda: Symmetry.cyclic(n, inv), pm(C))
    if i == 3:
        return (f"dihedral({n},{inv})", lambda: Symmetry.dihedral(n, inv), pm(np.concatenate([C, C @ mx])))
    if i in (4, 12):
        return (f"cubic({inv})", lambda: Symmetry.cubic(inv), pm(signed_perms(det=1)))
    if i == 5:
        return (f"perm3({inv})", lambda: Symmetry.perm3(inv), pm(perms))
    if i == 6:
        return (f"even_perm3({inv})", lambda: Symmetry.even_perm3(inv), pm(closure([[[0, 0, 1], [0, -1, 0], [1, 0, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]])))
    if i == 7:
        return (f"mirror3({inv})", lambda: Symmetry.mirror3(inv), pm(V4))
    if i == 8:
        return (f"mirror_x({inv})", lambda: Symmetry.mirror_x(inv), pm(np.array([I3, mx])))
    if i == 9:
        return (f"mirror_xy({inv})", lambda: Symmetry.mirror_xy(inv), pm(np.array([I3, np.diag([-1., -1, 1])])))
    if i == 10:
        top = np.array([0, 2, 1]) / 5**0.5
        try:
            if find(rot((2, 0, 1), 2 * np.pi / 5), np.array(Symmetry.icosahedral(False).S, float)) is not None:
                top = np.array([2, 0, 1]) / 5**0.5  # the orientation in the plane is convention
        except Exception:
            pass
        return (f"icosahedral({inv})", lambda: Symmetry.icosahedral(inv), pm(closure([rot((0, 0, 1), 2 * np.pi / 5), rot(top, 2 * np.pi / 5)])))
    full = inv
    T = closure([np.diag([-1., -1, 1]), perms[[k for k in range(6) if np.allclose(perms[k], [[0, 1, 0], [0, 0, 1], [1, 0, 0]])][0]]])
    return (f"tetrahedral({full})", lambda: Symmetry.tetrahedral(full), signed_perms(det=1) if full else T)


def small(rng, dim=3, limit=60):
    """a random point group given as Symmetry + reference ops, built without relying on from_generator"""
    while True:
        name, f, ref = named(rng, dim)
        if len(ref) <= limit:
            break
    if rng.random() < 0.5:  # random subgroup
        g = ref[rng.integers(len(ref), size=int(rng.integers(1, 3)))]
        ref = closure(list(g))
        name = "sub " + name
    return name, ref


def make(ref, rng=None):
    """Symmetry object of an explicit operation list; in odd dimensions optionally with the inversion flag used"""
    ref = np.asarray(ref, float)
    i = find(np.eye(ref.shape[1]), ref)
    ref = np.concatenate([ref[i:i + 1], np.delete(ref, i, axis=0)])
    if rng is not None and rng.random() < 0.5:
        ref = np.concatenate([ref[:1], ref[1:][rng.permutation(len(ref) - 1)]])
    return Symmetry(ref)


def crystal(rng, ref):
    """conjugate to a basis in which a hexagonal / cubic group is integer, or to any basis"""
    d = ref.shape[1]
    u = rng.random()
    if u < 0.4:
        B = np.linalg.qr(rng.standard_normal((d, d)))[0]
    elif u < 0.6 and d >= 2:
        B = np.linalg.inv(HEX if d == 3 else HEX2)
    elif u < 0.75 and d == 3:
        B = np.linalg.inv(FCC)
    else:
        B = np.linalg.qr(rng.standard_normal((d, d)))[0] @ np.diag(rng.uniform(0.5, 2, d))
    return B
