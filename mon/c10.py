"""C10 orbits: realised / reduced / completed point sets against brute-force orbits over the explicit operation list."""
import warnings
from tight_binding_redweasel.symmetry import neighbor_function, try_neighbor_function
from .core import *
from .groups import *

P = "C10"


def orbit(k, ops, tol=1e-7):
    res = []
    for g in ops:
        x = g @ k
        if not res or np.linalg.norm(np.array(res) - x, axis=1).min() > tol:
            res.append(x)
    return np.array(res)


def wrap(x):
    x = x - np.floor(x + 0.5)
    x = np.where(x > 0.5 - 1e-6, x - 1.0, x)
    return np.where(np.abs(x) < 1e-9, 0.0, x)


def unique_rows(x, tol=1e-7):
    res = []
    for p in x:
        if not res or np.linalg.norm(np.array(res) - p, axis=1).min() > tol:
            res.append(p)
    return np.array(res)


def match(a, b, tol=2e-6):
    """permutation p with a = b[p], None if the sets differ"""
    if a.shape != b.shape:
        return None
    d = np.linalg.norm(a[:, None] - b[None], axis=2)
    p = d.argmin(1)
    if d[np.arange(len(a)), p].max() > tol or len(set(p)) != len(b):
        return None
    return p


def is_sorted(k):
    q = np.round(np.asarray(k) + np.pi, 4)
    for a, b in zip(q[:-1], q[1:]):
        diff = [(x, y) for x, y in zip(a[::-1], b[::-1]) if abs(x - y) > 5e-5]
        if diff and diff[0][0] > diff[0][1]:
            return False
    return True


def gen_group(rng, limit=48, orth=True, integer=False):
    d = int(rng.choice([1, 2, 3, 3]))
    while True:
        name, ref = small(rng, d, limit)
        if integer:
            if np.abs(ref - np.round(ref)).max() > 1e-9:
                B = np.linalg.inv(HEX if d == 3 else HEX2) if d > 1 else np.eye(1)
                ref = np.array([B @ x @ np.linalg.inv(B) for x in ref])
                if np.abs(ref - np.round(ref)).max() > 1e-9:
                    continue
            elif d == 3 and rng.random() < 0.3:
                B = np.linalg.inv(FCC)
                ref = np.array([B @ x @ np.linalg.inv(B) for x in ref])
            ref = np.round(ref)
        return d, name, ref


def special_points(rng, d, ops, n):
    """generic points and points on the fixed spaces of group elements"""
    res = []
    for _ in range(n):
        k = rng.uniform(-1, 1, d) * rng.choice([0.2, 1.0, 1.0, 3.0])
        u = rng.random()
        if u < 0.4:
            g = ops[int(rng.integers(len(ops)))]
            h = closure([g])
            k = np.mean(h @ k, axis=0)
        elif u < 0.5:
            k = np.zeros(d)
        elif u < 0.65:
            k = np.round(k * 2) / 2
        elif u < 0.75:
            # close to a mirror or axis, but not on it
            k = np.mean(closure([ops[int(rng.integers(len(ops)))]]) @ k, axis=0)
            k = k + rng.standard_normal(d) * np.linalg.norm(k) * 10 ** rng.uniform(-4, -2.5)
        k = np.where(np.abs(k) < 1e-9, 0.0, k)
        if 0 < np.linalg.norm(k) < 1e-2:
            continue
        if res and min(np.linalg.norm(o - k, axis=1).min() for o in [orbit(r, ops) for r in res]) < 1e-3:
            continue
        res.append(k)
    return np.array(res)


def no_borders(pts):
    """coordinates that sit on a rounding border of the sorting keys are documented to be unstable"""
    f = ((np.asarray(pts) + np.pi) * 1e4 + 0.5) % 1.0
    return np.all((f > 1e-6) & (f < 1 - 1e-6))


def well_separated(pts, limit=1e-3):
    d = np.linalg.norm(pts[:, None] - pts[None], axis=2) + np.eye(len(pts)) * 9
    return d.min() > limit


@workload(P, quick=400, thorough=6000)
def realise(c, rng):
    d, name, ops = gen_group(rng)
    s = make(ops, rng)
    k = special_points(rng, d, ops, int(rng.integers(1, 7)))
    if len(k) == 0:
        raise Skip()
    orbs = [orbit(x, ops) for x in k]
    want = np.concatenate(orbs)
    src = np.concatenate([[i] * len(o) for i, o in enumerate(orbs)])
    if not no_borders(want) or not well_separated(want, 2e-5):
        raise Skip()
    if not well_separated(want):
        c.event("close images")
    state = digest(s, k)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        full, order = s.realize_symmetric(k)
    c.ok(not wl, "no-duplicate-warning", f"{[str(x.message) for x in wl]}")
    p = match(full, want)
    c.ok(p is not None, "realised-set", f"{name}: {len(full)} points, expected {len(want)}")
    c.ok(np.all(src[p] == order), "realised-source")
    c.ok(is_sorted(full), "realised-sorted")
    data = rng.standard_normal((len(k),) + [(), (2,), (2, 2)][int(rng.integers(3))])
    f2, d2 = s.realize_symmetric_data(k, data)
    c.close(f2, full, "realise-data-points", rtol=0)
    c.close(d2, data[order], "realise-data-values", rtol=0)
    c.close(s.r_class_size(k), np.array([len(o) for o in orbs], float), "class-size", rtol=1e-12)
    c.close(s.r_class_size(full), np.array([len(orbs[i]) for i in order], float), "class-size", rtol=1e-12)
    # reduce and realise again
    rk, rd = s.reduce_symmetric_data(full, d2)
    c.ok(len(rk) == len(k), "one-representative-per-orbit", f"{name}: {len(rk)} != {len(k)}")
    for x, v in zip(rk, rd):
        j = int(np.argmin(np.linalg.norm(want - x, axis=1)))
        c.ok(np.linalg.norm(want[j] - x) < 1e-6, "representative-from-set")
        c.close(v, data[src[j]], "representative-value", rtol=0)
    f3, d3 = s.realize_symmetric_data(rk, rd)
    p = match(f3, full)
    c.ok(p is not None, "round-trip-points", f"{len(f3)} != {len(full)}")
    c.close(d3, d2[p], "round-trip-values", rtol=0)
    # shuffled input
    q = rng.permutation(len(full))
    rk2, rd2 = s.reduce_symmetric_data(full[q], d2[q])
    c.ok(len(rk2) == len(k), "one-representative-per-orbit", f"{name}: shuffled {len(rk2)} != {len(k)}")
    # asymmetric data is detected
    multi = [i for i in range(len(full)) if len(orbs[order[i]]) > 1]
    if multi:
        bad = np.array(d2)
        bad[multi[int(rng.integers(len(multi)))]] += 1e-3
        try:
            s.reduce_symmetric_data(full, bad)
            c.fail("asymmetric-data-accepted", name)
        except ValueError:
            c.ok(True, "asymmetric-data-rejected")
        c.ok(len(s.reduce_symmetric_data(full, bad, checked=False)[0]) == len(k), "unchecked-reduce")
    c.ok(digest(s, k) == state, "arguments-unchanged")
    c.key(ops, k)
    c.note(group=name, orbits=[len(o) for o in orbs])


@workload(P, quick=60, thorough=800)
def grids(c, rng):
    """dense symmetric grids: many shells of almost equal length"""
    d = int(rng.choice([1, 2, 3]))
    while True:
        _, ref = small(rng, d, 48)
        if np.abs(ref - np.round(ref)).max() < 1e-9:
            break
    s = make(ref, rng)
    m = {1: int(rng.integers(1, 30)), 2: int(rng.integers(1, 9)), 3: int(rng.integers(1, 4))}[d]
    h = float(rng.choice([1.0, 1 / (2 * m), 1 / (2 * m + 1), 0.37]))
    off = 0.0 if rng.random() < 0.7 else 0.5
    ax = (np.arange(-m, m + 1) if off == 0 else np.arange(-m, m) + 0.5) * h
    g = np.stack(np.meshgrid(*d * (ax,), indexing="ij"), axis=-1).reshape(-1, d)
    if not no_borders(g):
        raise Skip()
    lab = np.sum(np.cos(np.einsum("gij,nj->gni", ref, g) @ rng.uniform(0.5, 3, d)), axis=0)
    # orbit count by Burnside-free brute force
    seen, count = set(), 0
    for x in g:
        if key(x) in seen:
            continue
        count += 1
        seen |= {key(y) for y in orbit(x, ref)}
    rk, rd = s.reduce_symmetric_data(g, lab)
    c.ok(len(rk) == count, "grid-one-representative-per-orbit", f"{len(rk)} != {count}, d={d} m={m} h={h} |G|={len(ref)}")
    f, v = s.realize_symmetric_data(rk, rd)
    p = match(f, g)
    c.ok(p is not None, "grid-round-trip", f"{len(f)} != {len(g)}")
    c.close(v, lab[p], "grid-round-trip-values", rtol=1e-9, atol=1e-9)
    n = len(ax)
    # the result can be reshaped to the grid, the last coordinate is the slowest
    c.close(f.reshape((n,) * d + (d,)), np.stack(np.meshgrid(*d * (ax,), indexing="ij")[::-1], axis=-1), "grid-order", rtol=0, atol=1e-6)
    c.key(ref, g)
    c.note(order=len(ref), grid=len(g), reduced=count)


@workload(P, quick=250, thorough=4000)
def periodic(c, rng):
    """unit_cell=True, k_weight, equivalent inputs and their averages, in crystal coordinates"""
    d, name, ops = gen_group(rng, integer=True)
    s = make(ops, rng)
    n = int(rng.choice([2, 3, 4, 5, 6, 8]))
    k = rng.integers(-n, n + 1, size=(int(rng.integers(1, 7)), d)) / n
    if rng.random() < 0.4:
        k = k + rng.random() * 0.3 / n
    k = np.array([x for i, x in enumerate(k)])
    orbs = [unique_rows(wrap(np.einsum("gij,j->gi", ops, x))) for x in k]
    allp = unique_rows(np.concatenate(orbs))
    if not no_borders(np.concatenate([allp, np.concatenate([np.einsum("gij,j->gi", ops, x) for x in k])])) or not well_separated(allp):
        raise Skip()
    srcs = [sorted(i for i, o in enumerate(orbs) if np.linalg.norm(o - x, axis=1).min() < 1e-5) for x in allp]
    state = digest(s, k)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        full, order = s.realize_symmetric(k, unit_cell=True)
        p = match(full, allp)
        c.ok(p is not None, "cell-realised-set", f"{name}: {len(full)} != {len(allp)}")
        c.ok(np.all((full >= -0.5) & (full < 0.5 - 1e-7)), "cell-range")
        c.ok(all(o in srcs[j] for o, j in zip(order, p)), "cell-source")
        c.ok(is_sorted(full), "cell-sorted")
        clash = any(len(x) > 1 for x in srcs)
        c.ok(clash == bool(wl), "equivalent-input-warning", f"{clash} {[str(x.message) for x in wl]}")
        f2, o2 = s.realize_symmetric(k, unit_cell=True, collect_bad_duplicates=True)
        p2 = match(f2, allp)
        c.ok(p2 is not None and len(o2) == len(f2), "collected-set")
        for o, j in zip(o2, p2):
            c.ok(sorted(set(int(i) for i in np.ravel(o))) == srcs[j], "collected-sources", f"{o} {srcs[j]}")
        data = rng.standard_normal((len(k), 2))
        f3, d3 = s.realize_symmetric_data(k, data, unit_cell=True, average_bad_duplicates=True)
        p3 = match(f3, allp)
        c.ok(p3 is not None, "averaged-set")
        c.close(d3, np.array([data[srcs[j]].mean(0) for j in p3]), "averaged-values", rtol=1e-12)
        # without averaging every value is the one of a source
        f4, d4 = s.realize_symmetric_data(k, data, unit_cell=True)
        p4 = match(f4, allp)
        c.ok(p4 is not None, "unaveraged-set")
        c.ok(all(any(np.array_equal(v, data[i]) for i in srcs[j]) for v, j in zip(d4, p4)), "unaveraged-values-of-a-source")
        # equal data at equivalent points can be averaged without an error to report
        del wl[:]
        f5, d5 = s.realize_symmetric_data(k, np.ones((len(k), 2)), unit_cell=True, average_bad_duplicates=True)
        c.ok(np.all(np.abs(d5 - 1) < 1e-12) and not any("averaging" in str(x.message) for x in wl), "averaging-equal-data-silently")
        del wl[:]
        s.realize_symmetric_data(k, data, unit_cell=True, average_bad_duplicates=True)
        c.ok(any("averaging" in str(x.message) for x in wl) == clash, "averaging-error-reported")
    w = s.k_weight(k)
    want = np.array([1 / sum(np.abs((y := g @ x - x) - np.round(y)).max() < 1e-7 for g in ops) for x in k])
    c.close(w, want, "k-weight", rtol=1e-12)
    # orbit-stabiliser
    c.close(w * len(ops), np.array([len(o) for o in orbs], float), "orbit-stabiliser", rtol=1e-12)
    c.close(s.k_weight(np.zeros((1, d))), [1 / len(ops)], "k-weight-gamma", rtol=1e-12)
    c.ok(digest(s, k) == state, "arguments-unchanged")
    c.key(ops, k)
    c.note(group=name, points=len(allp))


@workload(P, quick=200, thorough=3000)
def zone_grid(c, rng):
    """irreducible wedge of a full periodic grid with the weights"""
    d, name, ops = gen_group(rng, integer=True)
    s = make(ops, rng)
    n = int(rng.integers(2, {1: 12, 2: 7, 3: 5}[d]))
    ax = np.arange(n) / n
    g = np.stack(np.meshgrid(*d * (ax,), indexing="ij"), axis=-1).reshape(-1, d)
    w = s.k_weight(g)
    left = {key(wrap(x)): i for i, x in enumerate(g)}
    reps = []
    while left:
        i = next(iter(left.values()))
        reps.append(i)
        for o in ops:
            left.pop(key(wrap(o @ g[i])), None)
    c.close(np.sum(w[reps]) * len(ops), float(len(g)), "weights-sum-to-grid", rtol=1e-9)
    cell = unique_rows(wrap(g))
    if not no_borders(np.concatenate([wrap(g), np.concatenate([np.einsum("gij,j->gi", ops, g[i]) for i in reps])])):
        raise Skip()
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        full, order = s.realize_symmetric(g[reps], unit_cell=True)
    c.ok(match(full, cell) is not None, "wedge-realises-grid", f"{name} n={n}: {len(full)} != {len(cell)}")
    c.key(ops, n)


@workload(P, quick=300, thorough=5000)
def neighbors(c, rng):
    d, name, ops = gen_group(rng, integer=bool(rng.random() < 0.7))
    s = make(ops, rng)
    k = np.unique(rng.integers(-2, 3, size=(int(rng.integers(1, 5)), d)), axis=0).astype(float)
    k = np.concatenate([np.zeros((1, d)), k[np.abs(k).max(1) > 0]])
    if np.abs(ops - np.round(ops)).max() > 1e-9:
        k[1:] += rng.uniform(-0.3, 0.3, k[1:].shape)
    close = len(k) > 1 and rng.random() < .15
    opsT = np.swapaxes(ops, 1, 2)
    if close:
        # almost on the fixed space of an operation (or the negative of one)
        g = opsT[int(rng.integers(len(opsT)))] * rng.choice([-1, 1])
        x = np.mean(closure([g]) @ k[-1], axis=0)
        if np.linalg.norm(x) > .1:
            x = x + rng.standard_normal(d) * 3e-4
            k[-1] = x
    orbs = [orbit(x, np.concatenate([opsT, -opsT])) for x in k]
    allp = unique_rows(np.concatenate(orbs))
    if not no_borders(allp) or not well_separated(allp, 2.5e-4 if close else 1e-3):
        raise Skip()
    if not well_separated(allp):
        c.event("close images")
    state = digest(s, k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nb, order = s.complete_neighbors(k, return_order=True)
        nb1 = s.complete_neighbors(k)
    nb, order = np.array(nb), np.array(order)
    c.close(np.array(nb1), nb, "return-order-same-list", rtol=0)
    c.ok(len(nb) == (len(allp) + 1) // 2, "neighbor-count", f"{name}: {len(nb)} for {len(allp)} points")
    c.ok(np.linalg.norm(nb[0]) < 1e-9, "zero-first")
    pm = unique_rows(np.concatenate([nb, -nb[1:]]))
    c.ok(match(pm, allp) is not None, "neighbors-closed-under-group", f"{name}")
    c.ok(len(pm) == 2 * len(nb) - 1, "one-of-every-pair")
    c.ok(np.all(np.diff(np.linalg.norm(nb, axis=1)) > -1e-9), "sorted-by-length")
    for x, i in zip(nb, order):
        c.ok(np.linalg.norm(orbs[i] - x, axis=1).min() < 1e-6, "neighbor-source")
        first = [y for y in x if abs(y) > 1e-7]
        c.ok(not first or first[0] > 0, "positive-half-space")
    if d == 3:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.check_neighbors(nb)
            c.ok(True, "check-accepts-complete")
            for i in rng.permutation(len(nb))[:3]:
                o = unique_rows(np.concatenate([orbit(nb[i], opsT), -orbit(nb[i], opsT)]))
                if len(o) > 2:
                    try:
                        s.check_neighbors(np.delete(nb, i, axis=0))
                        c.fail("check-accepts-incomplete", f"{name}: without {nb[i]}")
                    except ValueError:
                        c.ok(True, "check-rejects-incomplete")
    # lookups
    f, t = neighbor_function(nb), try_neighbor_function(nb)
    for i, x in enumerate(nb):
        c.ok(f(x) == (i, False) and t(x) == (i, False), "lookup-found")
        if i and np.linalg.norm(nb + x, axis=1).min() > 1e-3:
            c.ok(f(-x) == (i, True) and t(-x) == (i, True), "lookup-mirrored")
    far = nb[-1] + 0.31
    if min(np.linalg.norm(nb - far, axis=1).min(), np.linalg.norm(nb + far, axis=1).min()) > 1e-2:
        c.ok(t(far) == (None, None), "lookup-missing")
        try:
            f(far)
            c.fail("lookup-missing-accepted", "")
        except ValueError:
            c.ok(True, "lookup-missing-raises")
    c.ok(digest(s, k) == state, "arguments-unchanged")
    c.key(ops, k)
    c.note(group=name, neighbors=len(nb))


@workload(P, quick=200, thorough=3000)
def point_classes(c, rng):
    d, name, ops = gen_group(rng)
    s = make(ops, rng)
    base = special_points(rng, d, ops, int(rng.integers(1, 5)))
    if len(base) == 0:
        raise Skip()
    pts = np.concatenate([orbit(x, ops) for x in base])
    lab = np.concatenate([[i] * len(orbit(x, ops)) for i, x in enumerate(base)])
    q = rng.permutation(len(pts))
    if rng.random() < 0.4:
        q = q[:max(1, int(len(q) * 0.7))]
    pts, lab = pts[q], lab[q]
    cl = s.find_classes(pts)
    seen = set()
    for rep, members in cl.items():
        m = {int(i) for i in members}
        c.ok(rep in m and not (m & seen), "classes-disjoint")
        seen |= m
        c.ok(m == set(np.flatnonzero(lab == lab[rep]).tolist()), "class-is-orbit", f"{name}: {sorted(m)}")
    c.ok(len(seen) == len(pts), "classes-cover")
    c.key(ops, pts)
