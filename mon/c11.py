"""C11 tensor symmetrisation against the invariance of the result under every single operation."""
from .core import *
from .groups import *

P = "C11"


def act(g, T, left, pseudo):
    """T -> image of T under g: left indices transform with g, right indices with the inverse transpose"""
    gi = np.linalg.inv(g).T
    for ax in range(T.ndim):
        m = g if ax < left else gi
        T = np.moveaxis(np.tensordot(m, T, axes=([1], [ax])), 0, ax)
    return T * (np.sign(np.linalg.det(g)) if pseudo else 1)


@workload(P, quick=500, thorough=8000)
def projection(c, rng):
    d = int(rng.choice([1, 2, 3, 3]))
    name, ref = small(rng, d, 48)
    if rng.random() < 0.4:
        B = crystal(rng, ref)
        ref = np.array([B @ x @ np.linalg.inv(B) for x in ref])
    s = make(ref, rng)
    if rng.random() < 0.3 and d == 3 and find(-np.eye(3), ref) is None:
        s = Symmetry(s.S, inversion=True)  # inversion flag on a group which may contain mirrors
        ref = np.concatenate([ref, -ref])
    r = int(rng.integers(0, 5)) if d < 3 else int(rng.integers(0, 4)) if rng.random() < 0.9 else 4
    left = int(rng.integers(0, r + 1))
    pseudo = bool(rng.random() < 0.4)
    rank = (left, r - left)
    T = rng.standard_normal((d,) * r) * 10 ** rng.uniform(-3, 3)
    if rng.random() < 0.2:
        T = np.round(T).astype(int)
    elif rng.random() < 0.2:
        T = T + 1j * rng.standard_normal(T.shape)
    state = digest(s, T)
    kw = {} if (rank == (1, 1) and rng.random() < 0.5) else dict(rank=rank)
    res = s.symmetrize(T, pseudo_tensor=pseudo, **kw)
    amp = np.linalg.norm(ref, axis=(1, 2)).max() ** r
    sc = amp * (np.abs(T).max() + 1e-30)
    c.ok(np.shape(res) == np.shape(T), "shape")
    ops = ops_of(s)
    for g in ops[rng.permutation(len(ops))[:12]]:
        c.close(act(g, res, left, pseudo), res, "invariant-under-operation", rtol=1e-9, scale=sc * amp, group=name, rank=rank, pseudo=pseudo)
    mean = np.mean([act(g, T, left, pseudo) for g in ops], axis=0)
    c.close(res, mean, "group-mean", rtol=1e-9, scale=sc, group=name, rank=rank, pseudo=pseudo)
    c.close(s.symmetrize(res, rank=rank, pseudo_tensor=pseudo), res, "idempotent", rtol=1e-9, scale=sc * amp)
    U = rng.standard_normal((d,) * r) * (np.abs(T).max() + 1e-3)
    a = rng.standard_normal()
    c.close(s.symmetrize(a * T + U, rank=rank, pseudo_tensor=pseudo), a * res + s.symmetrize(U, rank=rank, pseudo_tensor=pseudo), "linear", rtol=1e-9, scale=sc * 3)
    c.ok(digest(s, T) == state, "arguments-unchanged")
    c.key(ref, T, rank, pseudo)
    c.note(group=name, order=len(ops), rank=rank, pseudo=pseudo)


@workload(P, quick=150, thorough=2000)
def invariants(c, rng):
    """tensors known to be invariant stay as they are, known vanishing ones vanish"""
    d = int(rng.choice([2, 3, 3]))
    name, ref = small(rng, d, 48)
    s = make(ref, rng)
    for rank in ((1, 1), (2, 0), (0, 2)):
        c.close(s.symmetrize(np.eye(d), rank=rank), np.eye(d), "metric-invariant", rtol=0, atol=1e-9)
    if d == 3:
        eps = np.zeros((3, 3, 3))
        for p in itertools.permutations(range(3)):
            eps[p] = np.linalg.det(np.eye(3)[list(p)])
        for rank in ((3, 0), (1, 2), (0, 3)):
            c.close(s.symmetrize(eps, rank=rank, pseudo_tensor=True), eps, "levi-civita-is-pseudo-invariant", rtol=0, atol=1e-9)
        proper = np.all(np.linalg.det(ref) > 0)
        c.close(s.symmetrize(eps, rank=(3, 0)), eps if proper else 0 * eps, "levi-civita-true-tensor", rtol=0, atol=1e-9)
    if find(-np.eye(d), ref) is not None:
        T = rng.standard_normal((d,) * 3)
        c.close(s.symmetrize(T, rank=(2, 1)), 0 * T, "odd-rank-vanishes-with-inversion", rtol=0, atol=1e-9)
        c.close(s.symmetrize(T[0, 0], rank=(1, 0)), 0 * T[0, 0], "odd-rank-vanishes-with-inversion", rtol=0, atol=1e-9)
    for bad in ((2, 1), (0, 1), (0, 0)):
        try:
            s.symmetrize(np.eye(d), rank=bad)
            c.fail("wrong-rank-accepted", f"{bad}")
        except AssertionError:
            c.ok(True, "wrong-rank-rejected")
    c.key(ref)
