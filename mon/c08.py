"""C08 fit-quality measures: scalar-loop reference of every measure, evaluated next to the real one."""
import itertools
import re
from tight_binding_redweasel import loss as L
from .core import *
from .models import *
from .c01 import legacy_model

P = "C08"


def ref_loss(b, r, w, off):
    s = 0.0
    for x, y in zip(b, r):
        for j in range(len(y)):
            s += ((x[j + off] - y[j]) * w[j])**2
    return (s / len(b))**0.5


def ref_max(b, r, off):
    return np.array([max(abs(b[i][j + off] - r[i][j]) for i in range(len(b))) for j in range(len(r[0]))])


def ref_windowed(b, r, lo, hi):
    nb, nr = len(b[0]), len(r[0])
    m = min(nb, nr)
    best = np.inf
    for o in range(max(nb, nr) - m + 1):
        s = 0.0
        for x, y in zip(b, r):
            for j in range(m):
                yy, xx = (y[j + o], x[j]) if nb < nr else (y[j], x[j + o])
                if lo <= yy <= hi:
                    s += (yy - xx)**2
        best = min(best, s)
    return (best / len(b))**0.5


def ref_skipped(b, r, lo, hi):
    s = 0.0
    for x, y in zip(b, r):
        y = [v for v in y if lo <= v <= hi]
        a, d = (y, x) if len(y) <= len(x) else (x, y)
        s += min(sum((u - v)**2 for u, v in zip(a, p)) for p in itertools.permutations(d, len(a)))
    return (s / len(b))**0.5


def gen_bands(rng, nk, n, scale):
    b = rng.standard_normal((nk, n)) * scale
    if rng.random() < 0.2:
        b = np.round(b / scale * 2) / 2 * scale
    return np.sort(b, axis=1)


@workload(P, quick=600, thorough=12000)
def measures(c, rng):
    scale = 10 ** rng.uniform(-3, 3)
    nk = int(rng.integers(1, 12))
    n = int(rng.integers(1, 6))
    b = gen_bands(rng, nk, n, scale)
    nd = int(rng.integers(1, n + 1))
    off = int(rng.integers(0, n - nd + 1))
    if rng.random() < 0.2:
        r = b[:, off:off + nd].copy()
    else:
        r = gen_bands(rng, nk, nd, scale)
    w = rng.uniform(0.1, 2, nd)
    if rng.random() < 0.3:
        w = np.where(rng.random(nd) < 0.5, 0.0, w)
    d = digest(b, r, w)
    tol = dict(rtol=1e-10, atol=1e-12 * scale)
    l = L.model_loss(b, r, w, off)
    c.close(l, ref_loss(b, r, w, off), "loss", **tol)
    l2, e = L.model_error(b, r, w, off)
    c.close(l2, ref_loss(b, r, w, off), "error-loss", **tol)
    c.close(e, ref_max(b, r, off), "max-error-per-band", **tol)
    p = rng.permutation(nk)
    c.close(L.model_loss(b[p], r[p], w, off), l, "loss-order-independent", **tol)
    c.close(L.model_loss(np.repeat(b, 3, axis=0), np.repeat(r, 3, axis=0), w, off), l, "loss-is-mean-over-k", **tol)
    c.ok(digest(b, r, w) == d, "arguments-unchanged")
    c.key(b, r, w, off)


@workload(P, quick=600, thorough=12000)
def windowed(c, rng):
    scale = 10 ** rng.uniform(-2, 2)
    nk, nb, nr = int(rng.integers(1, 8)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    if rng.random() < 0.35:
        nr = nb
    b = gen_bands(rng, nk, nb, scale)
    r = gen_bands(rng, nk, nr, scale)
    if rng.random() < 0.5:  # there is a clearly best alignment
        m = min(nb, nr)
        o = int(rng.integers(0, max(nb, nr) - m + 1))
        if nb >= nr:
            r = b[:, o:o + m] + 0.01 * scale * rng.standard_normal((nk, m))
        else:
            b = r[:, o:o + m] + 0.01 * scale * rng.standard_normal((nk, m))
    lo, hi = np.sort(rng.standard_normal(2)) * scale * 1.5
    u = rng.random()
    if u < 0.3:
        lo, hi = -1e9, 1e9
    elif u < 0.4:
        lo, hi = 2 * np.max(r) + 1, 3 * np.max(r) + 5 + abs(np.max(r)) * 4
    elif u < 0.5:
        lo = hi = r[0, 0]
    d = digest(b, r)
    tol = dict(rtol=1e-9, atol=1e-11 * scale)
    kind = "equal" if nb == nr else "more-bands" if nb > nr else "fewer-bands"
    wl = L.model_windowed_loss(b, r, lo, hi)
    c.close(wl, ref_windowed(b, r, lo, hi), f"windowed-loss:{kind}", **tol)
    ws = L.model_windowed_loss(b, r, lo, hi, allow_skipped_bands=True)
    c.close(ws, ref_skipped(b, r, lo, hi), f"windowed-loss-skipped:{kind}", **tol)
    c.ok(np.isfinite(wl) and np.isfinite(ws) and wl >= 0 and ws >= 0, "windowed-finite")
    if nb >= nr:
        c.ok(ws <= wl * (1 + 1e-9) + 1e-11 * scale, "free-assignment-not-worse", f"{ws} > {wl}")
    c.close(L.model_windowed_loss(b, r, -np.inf, np.inf), ref_windowed(b, r, -np.inf, np.inf), "windowed-open-window", **tol)
    c.ok(digest(b, r) == d, "arguments-unchanged")
    c.key(b, r, lo, hi)
    c.note(kind=kind, aligned=wl, free=ws)


@workload(P, quick=800, thorough=8000)
def histogram(c, rng):
    scale = 10 ** rng.uniform(-1, 1)
    nk, nb, nr = int(rng.integers(1, 12)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    if rng.random() < 0.35:
        nr = nb
    b = gen_bands(rng, nk, nb, scale)
    r = gen_bands(rng, nk, nr, scale)
    lo, hi = max(r.min(), b.min()), min(r.max(), b.max())
    if hi - lo < 1e-3 * scale:
        raise Skip()
    N = int(rng.choice([2, 5, 20, 50]))
    skip = bool(rng.random() < 0.4)
    d = digest(b, r)
    if N == 50 and not skip:
        x, e = L.model_error_hist(b, r)
    elif not skip:
        x, e = L.model_error_hist(b, r, N=N)
    else:
        x, e = L.model_error_hist(b, r, N, skip)
    c.close(x, np.linspace(lo, hi, N), "hist-bins", rtol=1e-12, atol=1e-12 * scale)
    c.ok(np.shape(e) == (N,) and np.all(e >= 0), "hist-shape")
    if skip:
        # every sample may use any of its cheapest assignments, so each bin lies between the smallest and the largest choice
        h = x[1] - x[0]
        lower, upper = np.zeros(N), np.zeros(N)
        unique = True
        for xx, yy in zip(b, r):
            alts = []
            if nr <= nb:
                for p in itertools.permutations(range(nb), nr):
                    alts.append([(yy[i], abs(yy[i] - xx[j])) for i, j in enumerate(p)])
            else:
                for p in itertools.permutations(range(nr), nb):
                    alts.append([(yy[j], abs(yy[j] - xx[i])) for i, j in enumerate(p)])
            cost = [sum(t[1] for t in s) for s in alts]
            best = [np.array(s) for s, q in zip(alts, cost) if q <= min(cost) + 1e-9 * scale]
            unique &= len(best) == 1
            lo_, up_ = [], []
            for s in best:
                d_ = np.abs(s[:, 0][None] - x[:, None])
                lo_.append(np.max(np.where(d_ <= h / 2 - 1e-9 * scale, s[:, 1][None], 0), axis=1))
                up_.append(np.max(np.where(d_ <= h / 2 + 1e-9 * scale, s[:, 1][None], 0), axis=1))
            lower = np.maximum(lower, np.min(lo_, axis=0))
            upper = np.maximum(upper, np.max(up_, axis=0))
        c.event(f"hist-skipped:{'unique' if unique else 'ties'}")
        c.ok(np.all(e >= lower - 1e-9 * scale) and np.all(e <= upper + 1e-9 * scale), "hist-skipped-bins", f"{e} {lower} {upper}")
        if nb == nr == 1:
            skip = False
    if not skip:
        m = min(nb, nr)
        alts = []
        for o in range(max(nb, nr) - m + 1):
            rr, bb = (r[:, o:o + m], b) if nb < nr else (r, b[:, o:o + m])
            alts.append((np.linalg.norm(rr - bb), rr, np.abs(rr - bb)))
        alts.sort(key=lambda t: t[0])
        if len(alts) > 1 and alts[1][0] < alts[0][0] * (1 + 1e-6) + 1e-9 * scale:
            raise Skip()
        _, rr, err = alts[0]
        h = x[1] - x[0]
        for xx, got in zip(x, e):
            sure = err[np.abs(rr - xx) <= h / 2 - 1e-9 * scale]
            maybe = err[np.abs(rr - xx) <= h / 2 + 1e-9 * scale]
            c.ok(max(list(sure) + [0]) - 1e-12 * scale <= got <= max(list(maybe) + [0]) + 1e-12 * scale, "hist-max-in-bin", f"{got}")
    c.ok(digest(b, r) == d, "arguments-unchanged")
    c.key(b, r, N, skip)


@workload(P, quick=150, thorough=3000)
def of_models(c, rng):
    """the methods of both model classes measure the bands that the model itself reports"""
    nb, H, kind = gen_model(rng, nmax=4)
    m = bsm(nb, H, *MODES[int(rng.integers(4))]) if rng.random() < 0.5 else asym(nb, H)
    if rng.random() < 0.15:
        m, nb, H = legacy_model(rng)[:3]
    n, dim = H.shape[-1], nb.shape[1]
    k = gen_k(rng, dim)
    ref = Ref.of(nb, H)
    b = ref.bands(k)
    s = ref.scale()
    nd = int(rng.integers(1, n + 1))
    off = int(rng.integers(0, n - nd + 1))
    r = np.sort(b[:, off:off + nd] + 0.3 * s * rng.standard_normal((len(k), nd)), axis=1)
    w = rng.uniform(0.2, 2, nd)
    tol = dict(rtol=1e-8, atol=1e-10 * s)
    c.close(m.loss(k, r, w, off), ref_loss(b, r, w, off), "model-loss", **tol)
    l, e = m.error(k, r, w, off)
    c.close(l, ref_loss(b, r, w, off), "model-error-loss", **tol)
    c.close(e, ref_max(b, r, off), "model-max-error", **tol)
    lo, hi = np.sort(rng.standard_normal(2)) * s
    edge = min(np.abs(r - lo).min(), np.abs(r - hi).min())
    if edge > 1e-9 * s:
        c.close(m.windowed_loss(k, r, lo, hi), ref_windowed(b, r, lo, hi), "model-windowed-loss", **tol)
        c.close(m.windowed_loss(k, r, lo, hi, allow_skipped_bands=True), ref_skipped(b, r, lo, hi), "model-windowed-loss-skipped", **tol)
    if hasattr(m, "print_error"):
        with quiet() as q:
            m.print_error(k, r, w, off, prefix="x ")
        got = float(re.search(r"loss: ([-+.\deE]+)", q.getvalue()).group(1))
        want = ref_loss(b, r, w / np.mean(w), off)
        c.ok(abs(got - want) <= 0.006 * want + 1e-9 * s, "printed-loss", f"{q.getvalue()} {want}")
    c.key(nb, H, r)
