"""C24: the linear-algebra helpers satisfy their defining equations."""
import itertools
import numpy as np
from .core import workload, Skip
from tight_binding_redweasel import linalg as la


def herm(rng, n, real=False, batch=()):
    h = rng.normal(size=batch + (n, n)) + (0 if real else 1j) * rng.normal(size=batch + (n, n))
    h = h + np.conj(np.swapaxes(h, -1, -2))
    return h.real if real else h


def pos(rng, n, real=False, batch=(), cond=10.0):
    a = rng.normal(size=batch + (n, n)) + (0 if real else 1j) * rng.normal(size=batch + (n, n))
    s = a @ np.conj(np.swapaxes(a, -1, -2)) / n + np.eye(n) * float(np.exp(rng.uniform(np.log(1 / cond), 1)))
    return s.real if real else s


@workload("C24", quick=1000, thorough=20000)
def generalized(c, rng):
    n = int(rng.integers(1, 8))
    batch = () if rng.random() < .3 else (int(rng.integers(1, 6)),)
    kind = rng.choice(["complex", "real", "integer", "mixed", "identity", "near-identity", "degenerate", "mixed-identity"])
    c.event(str(kind))
    real = kind in ("real", "integer")
    H = herm(rng, n, real, batch)
    S = pos(rng, n, real, batch)
    if kind == "integer":
        H = np.round(3 * H).astype(int)
        H = H + np.swapaxes(H, -1, -2)
    elif kind == "mixed":
        H = herm(rng, n, True, batch)
    elif kind == "identity":
        S = np.broadcast_to(np.eye(n), batch + (n, n)).copy()
    elif kind == "near-identity":
        S = np.eye(n) + 10**float(rng.uniform(-7, -2)) * herm(rng, n, False, batch)
    elif kind == "mixed-identity" and batch:
        S[0] = np.eye(n)
    elif kind == "degenerate":
        # H = a S + b v v^+: all but one eigenvalue equal
        v = rng.normal(size=batch + (n, 1)) + 1j * rng.normal(size=batch + (n, 1))
        H = 1.7 * S + v @ np.conj(np.swapaxes(v, -1, -2))
    H0, S0 = H.copy(), S.copy()
    c.key(H, S)
    w, v = la.geigh(H, S)
    c.ok(w.shape == batch + (n,) and v.shape == batch + (n, n), "geigh-shape")
    sc = np.abs(H).max() + np.abs(w).max() * np.abs(S).max()
    c.close(H @ v, S @ v * w[..., None, :], "generalised-eigenpairs", rtol=0, atol=1e-7 * (1 + sc) * (1 + np.abs(v).max()))
    G = np.conj(np.swapaxes(v, -1, -2)) @ S @ v
    c.close(G, np.broadcast_to(np.eye(n), G.shape), "normalised-with-overlap", rtol=0, atol=1e-7)
    c.ok(np.all(np.diff(w, axis=-1) >= -1e-9 * (1 + sc)), "eigenvalues-ascending")
    c.ok(np.isrealobj(w), "eigenvalues-real")
    x = la.geigvalsh(H, S)
    c.close(x, w, "eigenvalues-without-vectors", rtol=0, atol=1e-7 * (1 + np.abs(w).max()))
    # independent: eigenvalues of L^-1 H L^-+
    L = np.linalg.inv(np.linalg.cholesky(S.astype(complex)))
    o = np.linalg.eigvalsh(L @ H @ np.conj(np.swapaxes(L, -1, -2)))
    c.close(w, o, "eigenvalues-of-reduced-problem", rtol=0, atol=1e-7 * (1 + np.abs(o).max()))
    c.ok(np.array_equal(H, H0) and np.array_equal(S, S0), "arguments-untouched")


@workload("C24", quick=500, thorough=10000)
def perturbation(c, rng):
    """gradients and Hessians against finite differences"""
    n, m, nb = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    H, S = herm(rng, n, batch=(nb,)), pos(rng, n, batch=(nb,))
    dH, dS = herm(rng, n, batch=(nb, m)), .2 * herm(rng, n, batch=(nb, m))
    q = herm(rng, n, batch=(nb, m, m))
    ddH = q + np.swapaxes(q, 1, 2)
    q = .2 * herm(rng, n, batch=(nb, m, m))
    ddS = q + np.swapaxes(q, 1, 2)
    plain = rng.random() < .5
    near = not plain and rng.random() < .25
    if plain:
        S, dS, ddS = np.broadcast_to(np.eye(n), S.shape).copy(), dS * 0, ddS * 0
    elif near:
        # an overlap that is almost, but not quite, the unit matrix
        t = [10**rng.uniform(-7, -3) if rng.random() < .7 else 0.0 for _ in range(3)]
        S, dS, ddS = np.eye(n) + t[0] * herm(rng, n, batch=(nb,)), dS * t[1], ddS * t[2]
    c.event("plain" if plain else "almost plain" if near else "overlap")
    c.key(H, S)

    def at(x):
        h = H + np.einsum("p,npij->nij", x, dH) + .5 * np.einsum("p,q,npqij->nij", x, x, ddH)
        s = S + np.einsum("p,npij->nij", x, dS) + .5 * np.einsum("p,q,npqij->nij", x, x, ddS)
        return np.array([np.linalg.eigvals(np.linalg.solve(s[i], h[i])) for i in range(nb)]).real

    def bands(x):
        return np.sort(at(x), axis=-1)
    b0 = bands(np.zeros(m))
    if n > 1 and np.min(np.diff(b0, axis=-1)) < .15:
        raise Skip()
    e = 1e-3
    I = np.eye(m)
    g = np.stack([(8 * (bands(e * I[p]) - bands(-e * I[p])) - bands(2 * e * I[p]) + bands(-2 * e * I[p])) / (12 * e) for p in range(m)], 1)
    h = np.empty((nb, m, m, n))
    e = 2e-3
    for p in range(m):
        for r in range(m):
            def f(t):
                return (bands(t * (I[p] + I[r])) - bands(t * (I[p] - I[r])) - bands(t * (I[r] - I[p])) + bands(-t * (I[p] + I[r]))) / (4 * t * t)
            h[:, p, r] = (4 * f(e) - f(2 * e)) / 3
    tg = 1e-5 * (1 + np.abs(g).max())
    th = 2e-3 * (1 + np.abs(h).max())
    if plain:
        w, gr, ev = la.eigh_grad(H, dH)
        c.close(w, b0, "eigenvalues", rtol=1e-7, atol=1e-8)
        c.close(gr, g, "eigenvalue-gradient", rtol=0, atol=tg)
        w, gr, hs = la.eigh_grad_hess(H, dH, ddH)
        c.close(w, b0, "eigenvalues", rtol=1e-7, atol=1e-8)
        c.close(gr, g, "eigenvalue-gradient", rtol=0, atol=tg)
        c.close(hs, h, "eigenvalue-hessian", rtol=0, atol=th)
        if rng.random() < .5:
            # one matrix without batch
            w1, g1, h1 = la.eigh_grad_hess(H[0], dH[0], ddH[0])
            c.close(w1, w[0], "single-matrix", rtol=1e-9)
            c.close(g1, gr[0], "single-matrix", rtol=1e-7)
            c.close(h1, hs[0], "single-matrix", rtol=1e-7)
    w, gr, ev = la.geigh_grad(H, S, dH, dS)
    c.close(w, b0, "eigenvalues", rtol=1e-7, atol=1e-8)
    c.close(gr, g, "generalised-gradient", rtol=0, atol=tg)
    # the textbook formula, to rounding
    c.close(gr, np.einsum("nji,npjk,nki->npi", ev.conj(), dH, ev).real - np.einsum("nji,npjk,nki->npi", ev.conj(), dS, ev).real * w[:, None, :], "generalised-gradient", rtol=0, atol=2e-8 * (1 + np.abs(gr).max()))
    c.close(H @ ev, S @ ev * w[:, None, :], "generalised-eigenpairs", rtol=0, atol=1e-7 * (1 + np.abs(H).max()) * (1 + np.abs(ev).max()) * (1 + np.abs(w).max()))
    w, gr, hs = la.geigh_grad_hess(H, S, dH, dS, ddH, ddS)
    c.close(w, b0, "eigenvalues", rtol=1e-7, atol=1e-8)
    c.close(gr, g, "generalised-gradient", rtol=0, atol=tg)
    c.close(hs, h, "generalised-hessian", rtol=0, atol=th)


@workload("C24", quick=800, thorough=10000)
def blocks(c, rng):
    k = int(rng.integers(1, 5))
    batch = () if rng.random() < .5 else tuple(rng.integers(1, 4, int(rng.integers(1, 3))))
    ms = [rng.normal(size=batch + tuple(rng.integers(1, 4, 2))) + (1j * rng.normal() if rng.random() < .4 else 0) for _ in range(k)]
    if rng.random() < .2:
        ms = [np.round(3 * np.real(x)).astype(int) for x in ms]
    c.key(*ms)
    c.event(f"{k} blocks batch {len(batch)}")
    D = la.direct_sum(*ms)
    r = sum(x.shape[-2] for x in ms)
    q = sum(x.shape[-1] for x in ms)
    c.ok(D.shape == batch + (r, q), "sum-shape", f"{D.shape}")
    o = np.zeros(batch + (r, q), dtype=complex)
    i = j = 0
    for x in ms:
        o[..., i:i + x.shape[-2], j:j + x.shape[-1]] = x
        i += x.shape[-2]
        j += x.shape[-1]
    c.ok(np.array_equal(D, o), "block-diagonal")
    if k > 1 and all(x.shape[-1] == x.shape[-2] for x in ms):
        c.close(np.trace(D, axis1=-1, axis2=-2), sum(np.trace(x, axis1=-1, axis2=-2) for x in ms), "trace-additive", rtol=1e-12)
    # Kronecker products: (A x B)(v x w) = Av x Bw
    fs = [rng.normal(size=tuple(rng.integers(1, 4, 2))) + (1j if rng.random() < .4 else 0) for _ in range(int(rng.integers(1, 5)))]
    K = la.kron(*fs)
    vs = [rng.normal(size=f.shape[1]) for f in fs]
    left, right = np.ones(1), np.ones(1)
    for f, v in zip(fs, vs):
        left = (left[:, None] * v[None]).ravel()
        right = (right[:, None] * (f @ v)[None]).ravel()
    c.close(K @ left, right, "kronecker-acts-factorwise", rtol=1e-10)
    # merged axes
    sh = tuple(rng.integers(1, 4, int(rng.integers(2, 6))))
    a = rng.normal(size=sh)
    cnt = int(rng.integers(1, len(sh) + 1))
    st = int(rng.integers(0, len(sh) - cnt + 1))
    m = la.merge_axes(a, st - len(sh) if rng.random() < .5 else st, cnt)
    c.ok(m.shape == sh[:st] + (int(np.prod(sh[st:st + cnt])),) + sh[st + cnt:] and np.array_equal(m.ravel(), a.ravel()), "merge-axes", f"{sh} {st} {cnt} {m.shape}")
    if len(sh) > 1:
        m = la.merge_axes(a)
        c.ok(m.shape == sh[:-2] + (sh[-2] * sh[-1],) and np.array_equal(m.ravel(), a.ravel()), "merge-axes", f"last two axes of {sh}: {m.shape}")
    n = int(rng.integers(1, 8))
    h = la.random_hermitian(n)
    c.ok(h.shape == (n, n) and np.array_equal(h, h.conj().T), "random-hermitian")
    u = la.random_unitary(n)
    c.close(u @ u.conj().T, np.eye(n), "random-unitary", rtol=0, atol=1e-12)
    for f in (la.direct_sum, la.kron):
        try:
            f()
            c.fail("empty-product-refused", "no error without operands")
        except ValueError:
            c.event("empty refused")


@workload("C24", quick=500, thorough=6000)
def sphere(c, rng):
    d = int(rng.integers(1, 4))
    kind = rng.choice(["random", "cubic", "centred", "skew"])
    A = rng.normal(size=(d, d))
    if kind == "cubic":
        A = np.eye(d) * rng.uniform(.3, 3)
    elif kind == "centred" and d == 3:
        A = (np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) if rng.random() < .5 else np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])) * .5
    elif kind == "skew":
        A = np.eye(d) + np.triu(rng.normal(size=(d, d)) * (4 if d > 2 else 60), 1)
    s = np.linalg.svd(A)[1]
    if s[0] / s[-1] > (200 if kind != "skew" else 1e6):
        raise Skip()
    A = A / abs(np.linalg.det(A))**(1 / d)
    dist = float(rng.choice([rng.uniform(.05, 3), 1.0, 2.0, np.sqrt(2)]))
    c.event(str(kind))
    c.key(A, dist)
    A0 = A.copy()
    P = la.lattice_in_sphere(A, dist)
    c.ok(np.array_equal(A, A0), "arguments-untouched")
    c.ok(P.ndim == 2 and P.shape[1] == d, "sphere-shape", f"{P.shape}")
    n = np.linalg.norm(P, axis=1)
    c.ok(np.all(n < dist * (1 + 1e-9)), "inside-sphere")
    m = np.linalg.solve(A, P.T).T
    c.close(m, np.round(m), "lattice-vectors", rtol=0, atol=1e-6)
    m = np.round(m).astype(int)
    got = set(map(tuple, m))
    c.ok(len(got) == len(m), "no-duplicates", f"{len(m)} points, {len(got)} distinct")
    # brute force with the tight bound |m_i| <= dist * |row_i(A^-1)|
    b = np.floor(dist * np.linalg.norm(np.linalg.inv(A), axis=1) + 1e-9).astype(int)
    if np.prod(2.0 * b + 1) > 3e6:
        raise Skip()
    g = np.stack(np.meshgrid(*[np.arange(-x, x + 1) for x in b], indexing="ij"), -1).reshape(-1, d)
    r = np.linalg.norm(g @ A.T, axis=1)
    must = set(map(tuple, g[r < dist * (1 - 1e-9)]))
    may = set(map(tuple, g[r < dist * (1 + 1e-9)]))
    c.ok(must <= got, "sphere-complete", f"{len(must - got)} of {len(must)} missing", A=A, dist=dist)
    c.ok(got <= may, "sphere-sound", f"{len(got - may)} too many")
    c.note(A=A, dist=dist, points=len(P))


@workload("C24", quick=800, thorough=10000)
def cg(c, rng):
    n = int(rng.integers(1, 12))
    sh = (n,) if rng.random() < .6 else (n, int(rng.integers(1, 4)))
    real = rng.random() < .5
    M = pos(rng, n, real, cond=5.0)
    joint = rng.random() < .3
    if joint:
        # a coupled operator on an array of several axes: the number of unknowns is the product of the axes
        sh = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(2, 4))))
        n = int(np.prod(sh))
        M = pos(rng, n, real, cond=float(rng.choice([2.0, 20.0, 60.0])))
    b = rng.normal(size=sh) + (0 if real else 1j * rng.normal(size=sh))
    kind = rng.choice(["plain", "guess", "exact-guess", "zero", "integer"])
    x0 = None
    if kind == "guess":
        x0 = rng.normal(size=sh) + (0 if real else 1j * rng.normal(size=sh))
    elif kind == "exact-guess":
        x0 = np.linalg.solve(M, b.reshape(n, -1)).reshape(sh)
    elif kind == "zero":
        b = np.zeros_like(b)
    elif kind == "integer":
        b = np.round(4 * b.real).astype(int)
        M = pos(rng, n, True, cond=5.0)
    c.event(str(kind))
    c.event("several axes coupled" if joint else "one axis")
    c.key(M, b, x0)
    mul = (lambda x: (M @ np.reshape(x, n)).reshape(sh)) if joint else (lambda x: M @ x)
    inv = np.linalg.solve(M, b.reshape(n, -1)).reshape(sh)
    b0 = b.copy()
    g0 = None if x0 is None else x0.copy()
    calls = [0]

    def A(x):
        calls[0] += 1
        if calls[0] > 100 * b.size + 100:
            c.fail("steps-bounded", f"{calls[0]} products for {b.size} unknowns")
        return mul(x)
    x = la.conjugate_gradient_solve(A, b, x0, err=1e-10)
    c.ok(np.array_equal(b, b0) and (x0 is None or np.array_equal(x0, g0)), "arguments-untouched")
    c.close(mul(x), b, "system-solved", rtol=0, atol=1e-6 * (1 + np.abs(b).max()))
    c.close(x, inv, "solution", rtol=0, atol=1e-5 * (1 + np.abs(b).max()))
    k = int(rng.integers(0, 3))
    y = la.conjugate_gradient_solve(A, b, x0, err=1e-10, max_i=k)
    # the error in the energy norm never grows
    s = inv
    en = lambda z: np.real(np.sum(np.conj(z - s) * mul(z - s)))
    z0 = np.zeros_like(s) if x0 is None else x0
    c.ok(en(y) <= en(z0) * (1 + 1e-9) + 1e-15, "steps-decrease-error", f"{en(y)} from {en(z0)}")
    calls[0] = 0
    # the number of steps is bounded, also when the residual can not get as small as asked for
    z = la.conjugate_gradient_solve(A, b, x0, err=0.0, max_i=None if rng.random() < .5 else 4 * n)
    c.ok(calls[0] <= 6 * b.size + 4 * n + 10, "steps-bounded", f"{calls[0]} products for {b.size} unknowns")
    c.close(z, inv, "solution", rtol=0, atol=1e-5 * (1 + np.abs(b).max()))


@workload("C24", quick=800, thorough=10000)
def clouds(c, rng):
    n = int(rng.integers(1, 9))
    sh = tuple(rng.integers(1, 4, int(rng.integers(1, 3))))
    P = rng.normal(size=(n,) + sh) if rng.random() < .7 else np.round(rng.normal(size=(n,) + sh) * 2)
    c.key(P)
    Q = P[rng.permutation(n)]
    P0, Q0 = P.copy(), Q.copy()
    c.ok(la.pointcloud_distance(P, Q) == 0, "equal-clouds", "distance of a permuted cloud is not zero")
    c.ok(la.pointcloud_distance(list(P), tuple(Q)) == 0, "equal-clouds")
    c.ok(np.array_equal(P, P0) and np.array_equal(Q, Q0), "arguments-untouched")
    # translations
    t = rng.normal(size=sh) * 1e-3
    d = la.pointcloud_distance(P, Q + t)
    c.ok(0 < d <= n * np.linalg.norm(t) * (1 + 1e-6) + (1e9 if len(np.unique(P.reshape(n, -1), axis=0)) < n or n > 1 and np.min([np.linalg.norm(x - y) for x, y in itertools.combinations(P, 2)]) < .1 else 0), "small-shift", f"{d}")
    # a cloud that differs in one point, or only in a multiplicity
    R = Q.copy()
    R[int(rng.integers(n))] += 1.0
    same = sorted(map(tuple, R.reshape(n, -1))) == sorted(map(tuple, P.reshape(n, -1)))
    if not same:
        c.ok(la.pointcloud_distance(P, R) > 1e-6, "different-clouds", "distance zero")
    if n > 1 and np.min([np.linalg.norm(x - y) for x, y in itertools.combinations(P, 2)]) > 1e-3:
        M = Q.copy()
        M[0] = M[1]
        c.ok(la.pointcloud_distance(P, M) > 1e-6, "multiplicity-counts", "distance zero")
        c.ok(la.pointcloud_distance(M, P) > 1e-6, "multiplicity-counts", "distance zero")
    c.ok(la.pointcloud_distance(P, np.concatenate([Q, Q[:1]])) == np.inf, "size-mismatch")
    # never below the optimal assignment
    if n <= 6:
        X = rng.normal(size=P.shape)
        D = np.linalg.norm((P.reshape(n, 1, -1) - X.reshape(1, n, -1)), axis=-1)
        best = min(sum(D[i, p[i]] for i in range(n)) for p in itertools.permutations(range(n)))
        d = la.pointcloud_distance(P, X)
        c.ok(best - 1e-9 <= d <= n * D.max() + 1e-9, "assignment-bound", f"{d} best {best}")
