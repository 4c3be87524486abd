"""C03 model algebra: a shadow reference spectrum follows every operation; histories of random operations are monitored step by step."""
import numpy as np
from .core import *
from .models import *

P = "C03"


class Shadow:
    """expected spectrum of the model as a function of k: list of (Ref, scale, shift)"""

    def __init__(self, parts):
        self.parts = parts

    def bands(self, k):
        return np.sort(np.concatenate([r.bands(k) * f + s for r, f, s in self.parts], axis=-1), axis=-1)

    def scale(self):
        return sum(r.scale() * abs(f) * (3 if r.S_Rs is not None else 1) + abs(s) for r, f, s in self.parts) + 1e-300


def step_check(c, m, sh, k, op, tag):
    n = sum(p[0].n for p in sh.parts)
    c.ok(m.band_count() == n, f"band-count:{tag}:{op}")
    got = m.bands(k)
    c.close(got, sh.bands(k), f"{op}:{tag}", rtol=2e-9, scale=sh.scale(), k=k)
    return got


def asym_op(c, rng, m, sh, nb_partner, k, tag):
    """one random operation; returns (model, shadow, name)"""
    n = m.band_count()
    ops = ["copy", "permute", "normalize", "cleanup", "shift", "scale", "add_zero_neighbors", "rebuild", "limit_noop", "set_from_complex", "sum_self", "sum_other"]
    op = str(rng.choice(ops))
    if op == "copy":
        return m.copy(), sh, op
    if op == "permute":
        m = m.copy()
        order = rng.permutation(n)
        before = m.H.f(k)
        m.permute(order if rng.random() < 0.5 else list(order))
        c.close(m.H.f(k), before[..., order, :][..., :, order], "permute-matrix:" + tag, rtol=1e-12, scale=sh.scale())
        return m, sh, op
    if op == "normalize":
        m = m.copy()
        m.normalize()
        S0 = m.S.f(np.zeros((1, m.dim())))[0]
        H0 = m.H.f(np.zeros((1, m.dim())))[0]
        c.close(S0, np.eye(n), "normalize-S0-unit:" + tag, rtol=1e-8)
        c.close(H0 - np.diag(np.diag(H0)), np.zeros((n, n)), "normalize-H0-diagonal:" + tag, rtol=1e-8, scale=sh.scale())
        return m, sh, op
    if op == "cleanup":
        m = m.copy()
        thr = float(rng.choice([0.0, 1e-300, 1e-13 * sh.scale()]))
        before = len(m.H.neighbors)
        removed = m.H.cleanup_neighbors(thr)
        c.ok(before - removed == len(m.H.neighbors) == len(m.H.H_r), "cleanup-count")
        return m, sh, op
    if op == "limit_noop":
        m = m.copy()
        L = np.linalg.norm(m.H.neighbors, axis=-1).max()
        c.ok(m.H.limit_neighbors(L) == 0, "limit-noop")
        c.ok(m.H.limit_neighbor_count(len(m.H.neighbors)) == 0, "limit-count-noop")
        return m, sh, op
    if op == "shift":
        v = float(rng.standard_normal() * 10 ** rng.uniform(-2, 2))
        return m + v, Shadow([(r, f, s + v) for r, f, s in sh.parts]), op
    if op == "scale":
        v = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-1.5, 1.5)) if rng.random() < 0.9 else 0.0
        return m * v, Shadow([(r, f * v, s * v) for r, f, s in sh.parts]), op
    if op == "add_zero_neighbors":
        m = m.copy()
        far = np.abs(m.H.neighbors).max() + 1 + np.arange(1, 1 + int(rng.integers(1, 4)))
        new = np.zeros((len(far), m.dim()))
        new[:, int(rng.integers(m.dim()))] = far
        m.H.add_neighbors(new)
        return m, sh, op
    if op == "rebuild":
        m2 = AsymTightBindingModel.new(np.array(m.H.neighbors), n)
        m2.set_from_complex(np.array(m.params_complex()))
        m2.S = m.S.copy()
        return m2, sh, op
    if op == "set_from_complex":
        m = m.copy()
        m.set_from_complex(m.params_complex())
        return m, sh, op
    if n > 10:
        return m, sh, "noop"
    if op == "sum_self":
        return m + m, Shadow(sh.parts + sh.parts), op
    other = m.copy()
    Hn, _ = gen_params(rng, len(m.H.neighbors), int(rng.integers(1, 4)), "generic")
    if tag == "asym-S":
        Sn = gen_overlap(rng, m.S.neighbors, Hn.shape[-1], 0.4)
        other = asym(m.H.neighbors, Hn, m.S.neighbors, Sn)
        ref = Ref.of(m.H.neighbors, Hn, m.S.neighbors, Sn)
    else:
        other = asym(m.H.neighbors, Hn)
        ref = Ref.of(m.H.neighbors, Hn)
    return m + other, Shadow(sh.parts + [(ref, 1.0, 0.0)]), op


@workload(P, quick=300, thorough=8000)
def asym_histories(c, rng):
    with_s = rng.random() < 0.4
    nb, H, kind = gen_model(rng, nmax=4)
    dim = len(nb[0])
    tag = "asym-S" if with_s else "asym"
    if with_s:
        snb = nb if rng.random() < 0.5 else half_space(dim, 1, rng, count=3)
        S = gen_overlap(rng, snb, H.shape[-1], 0.5)
        m, ref = asym(nb, H, snb, S), Ref.of(nb, H, snb, S)
    else:
        m, ref = asym(nb, H), Ref.of(nb, H)
    sh = Shadow([(ref, 1.0, 0.0)])
    k = gen_k(rng, dim, 4)
    hist = []
    for _ in range(int(rng.integers(3, 9))):
        orig = m
        orig_bands = orig.bands(k)
        m, sh, op = asym_op(c, rng, m, sh, nb, k, tag)
        hist.append(op)
        c.event("op:" + op)
        step_check(c, m, sh, k, op, tag)
        if orig is not m:
            c.close(orig.bands(k), orig_bands, f"operand-unchanged:{op}:{tag}", rtol=1e-12)
    c.key(nb, H, hist)
    c.note(history=hist, kind=kind)


@workload(P, quick=300, thorough=8000)
def bandstructure_histories(c, rng):
    nb, H, kind = gen_model(rng, nmax=4)
    dim = len(nb[0])
    cr, ex = MODES[int(rng.integers(4))]
    tag = f"bsm-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
    inv = rng.random() < 0.25
    if inv:
        H = herm(H)
    m = bsm(nb, H, cr, ex, Symmetry.inv(dim) if inv and dim % 2 else None)
    sh = Shadow([(Ref.of(nb, H), 1.0, 0.0)])
    k = gen_k(rng, dim, 4)
    hist = []
    for _ in range(int(rng.integers(3, 9))):
        op = str(rng.choice(["copy", "permute", "normalize", "shift", "scale", "sum_self", "sum_other", "roundtrip", "convert_mode", "to_asym"]))
        orig, orig_bands = m, m.bands(k)
        n = m.band_count()
        if op == "copy":
            m = m.copy()
        elif op == "permute":
            m = m.copy()
            order = rng.permutation(n)
            before = m.f(k)
            m.permute(order)
            c.close(m.f(k), before[..., order, :][..., :, order], "permute-matrix:" + tag, rtol=1e-12, scale=sh.scale())
        elif op == "normalize":
            m = m.copy()
            m.normalize()
            p0 = m.params[0]
            c.close(p0 - np.diag(np.diag(p0)), np.zeros((n, n)), "normalize-diagonal:" + tag, rtol=1e-9, scale=sh.scale())
        elif op == "shift":
            v = float(rng.standard_normal() * 10 ** rng.uniform(-2, 2))
            m, sh = m + v, Shadow([(r, f, s + v) for r, f, s in sh.parts])
        elif op == "scale":
            v = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-1.5, 1.5))
            m, sh = m * v, Shadow([(r, f * v, s * v) for r, f, s in sh.parts])
        elif op == "sum_self" and n <= 10:
            m, sh = m + m, Shadow(sh.parts * 2)
        elif op == "sum_other" and n <= 10:
            Hn, _ = gen_params(rng, len(nb), int(rng.integers(1, 4)), "generic")
            Hn = herm(Hn) if inv else Hn
            other = bsm(nb, Hn, cr, ex, m.sym)
            m, sh = m + other, Shadow(sh.parts + [(Ref.of(nb, Hn), 1.0, 0.0)])
        elif op == "roundtrip":
            m = m.copy()
            m.set_params_complex(m.params_complex())
        elif op == "convert_mode":
            cr, ex = MODES[int(rng.integers(4))]
            tag = f"bsm-{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
            m = bsm(nb, m.params_complex(), cr, ex, m.sym)
        elif op == "to_asym":
            a = asym(nb, m.params_complex())
            c.close(a.bands(k), orig_bands, f"to-asym:{tag}", rtol=1e-9, scale=sh.scale())
        hist.append(op)
        c.event("op:" + op)
        step_check(c, m, sh, k, op, tag)
        if orig is not m:
            c.close(orig.bands(k), orig_bands, f"operand-unchanged:{op}:{tag}", rtol=1e-12)
    c.key(nb, H, hist)
    c.note(history=hist, mode=tag, kind=kind)


@workload(P, quick=120, thorough=2500)
def neighbor_truncation(c, rng):
    """limiting / cleaning keeps exactly the terms that the argument selects"""
    nb, H, kind = gen_model(rng, nmax=3, m=2, count=10)
    dim = len(nb[0])
    H[1:] *= 10.0 ** rng.uniform(-4, 0, size=(len(nb) - 1, 1, 1))
    k = gen_k(rng, dim, 4)
    L = np.linalg.norm(nb, axis=-1)
    sc = Ref.of(nb, H).scale()
    m = asym(nb, H)
    thr = float(rng.choice([0, 1, np.sqrt(2), 2, np.sqrt(5), rng.uniform(0, 4)]))
    keep = L <= thr + 1e-8
    removed = m.H.limit_neighbors(thr)
    c.ok(removed == np.sum(~keep), "limit-count", f"{removed}")
    c.close(m.bands(k), Ref.of(nb[keep], H[keep]).bands(k), "limit-length", rtol=1e-9, scale=sc)
    m = asym(nb, H)
    norms = np.linalg.norm(H, axis=(1, 2))
    thr = float(np.exp(rng.uniform(np.log(norms.min() + 1e-12), np.log(norms.max() + 1e-12))))
    keep = norms >= thr
    keep[0] = True
    removed = m.H.cleanup_neighbors(thr)
    c.ok(removed == np.sum(~keep), "cleanup-count")
    c.close(m.bands(k), Ref.of(nb[keep], H[keep]).bands(k), "cleanup-norm", rtol=1e-9, scale=sc)
    m = asym(nb, H)
    cnt = int(rng.integers(1, len(nb) + 2))
    removed = m.H.limit_neighbor_count(cnt)
    left = len(m.H.neighbors)
    c.ok(left == min(cnt, len(nb)) and removed == len(nb) - left, "limit-count-count")
    c.ok(np.linalg.norm(m.H.neighbors, axis=-1).max() <= np.sort(L)[left - 1] + 1e-9, "limit-count-shortest")
    sel = [int(np.argmin(np.linalg.norm(nb - r, axis=-1))) for r in m.H.neighbors]
    c.ok(len(set(sel)) == left and np.all(m.H.H_r == H[sel]), "limit-count-values")
    c.key(nb, H, thr)


@workload(P, quick=60, thorough=1200)
def completed_neighbors(c, rng):
    """completing the neighbour list over a group and adding the missing ones with zero hoppings leaves every band unchanged"""
    dim = 3
    sym = [Symmetry.cubic(True), Symmetry.mirror3(True), Symmetry.inv(3), Symmetry.perm3(True)][int(rng.integers(4))]
    start = half_space(dim, 2, rng, count=int(rng.integers(1, 4)))
    full = np.array(sym.complete_neighbors(start), float)
    n = int(rng.integers(1, 4))
    H, kind = gen_params(rng, len(start), n)
    m = asym(start, H)
    ref = Ref.of(start, H)
    missing = [r for r in full if min(min(np.linalg.norm(start - r, axis=-1)), min(np.linalg.norm(start + r, axis=-1))) > 1e-5]
    k = gen_k(rng, dim, 4)
    if missing:
        m.H.add_neighbors(missing)
    c.close(m.bands(k), ref.bands(k), "complete-asym", rtol=1e-9, scale=ref.scale())
    c.ok(len(m.H.neighbors) == len(full), "complete-count", f"{len(m.H.neighbors)} {len(full)}")
    # rearranged into the completed list of the library
    Hc = np.zeros((len(full), n, n), complex)
    for r, h in zip(start, H):
        d = np.linalg.norm(full - r, axis=-1)
        e = np.linalg.norm(full + r, axis=-1)
        if d.min() < 1e-6:
            Hc[d.argmin()] = h
        else:
            c.ok(e.min() < 1e-6, "complete-covers-input")
            Hc[e.argmin()] = h.conj().T
    cr, ex = MODES[int(rng.integers(4))]
    c.close(bsm(full, Hc, cr, ex).bands(k), ref.bands(k), "complete-bsm", rtol=1e-9, scale=ref.scale())
    c.key(start, H)


@workload(P, quick=100, thorough=2000)
def series_and_random(c, rng):
    """sums of series, the unit series, empty models and random changes"""
    from tight_binding_redweasel.tight_binding_asym import HermitianFourierSeries as HFS
    dim = int(rng.integers(1, 4))
    nb = half_space(dim, {1: 3, 2: 1, 3: 1}[dim], rng, count=int(rng.integers(0, 5)))
    n1, n2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    H1, H2 = gen_params(rng, len(nb), n1)[0], gen_params(rng, len(nb), n2)[0]
    k = gen_k(rng, dim, 4)
    a, b = HFS(nb, H1), HFS(nb, H2)
    ra, rb = Ref.of(nb, H1), Ref.of(nb, H2)
    sc = ra.scale() + rb.scale()
    for s in (a.direct_sum(b), a + b):
        f = s.f(k)
        c.close(f[..., :n1, :n1], ra.H(k), "series-sum-first", rtol=1e-9, scale=sc)
        c.close(f[..., n1:, n1:], rb.H(k), "series-sum-second", rtol=1e-9, scale=sc)
        c.ok(np.all(f[..., :n1, n1:] == 0) and np.all(f[..., n1:, :n1] == 0), "series-sum-blocks")
        df = s.df(k)
        c.close(df[..., :n1, :n1], np.asarray(a.df(k)), "series-sum-derivative", rtol=1e-12, scale=sc * 20)
    if len(nb) > 1:
        nb2 = np.concatenate([nb[:1], nb[:0:-1] + 1])
        for g in (a.direct_sum, a.__add__):
            try:
                f = g(HFS(nb2, H2)).f(k)
            except (NotImplementedError, AssertionError):
                c.event("different-neighbours-refused")
                continue
            c.close(f[..., n1:, n1:], Ref.of(nb2, H2).H(k), "series-sum-other-neighbours", rtol=1e-9, scale=sc)
        # models with other neighbours, also of the same lengths
        swap = nb[:, rng.permutation(dim)] * rng.choice([-1, 1], size=dim)
        for nb3 in (nb2, np.concatenate([nb[:1], swap[1:]]), np.concatenate([nb[:1], nb[1:][rng.permutation(len(nb) - 1)]])):
            for mk in (lambda x, y: asym(x, y), lambda x, y: bsm(x, y, *MODES[int(rng.integers(4))])):
                state = rng.bit_generator.state
                x = mk(nb, H1)
                rng.bit_generator.state = state  # the same parametrisation for both
                y = mk(nb3, H2)
                want = np.sort(np.concatenate([ra.bands(k), Ref.of(nb3, H2).bands(k)], axis=-1), axis=-1)
                try:
                    got = (x + y).bands(k)
                except (NotImplementedError, AssertionError):
                    c.event("model-of-different-neighbours-refused")
                    continue
                c.close(got, want, "sum-of-different-neighbours", rtol=1e-9, scale=sc)
    one = HFS.unit_matrix(nb, n1)
    c.close(one.f(k), np.broadcast_to(np.eye(n1), np.shape(k)[:-1] + (n1, n1)), "unit-series", rtol=1e-12)
    c.close(one.df(k), np.zeros(np.shape(k) + (n1, n1)), "unit-series-derivative", atol=1e-12)
    c.close(asym(nb, H1, nb, one.H_r).bands(k), ra.bands(k), "unit-series-as-overlap", rtol=1e-9, scale=sc)
    e = AsymTightBindingModel.new(nb, n1)
    c.ok(e.band_count() == n1 and e.dim() == dim and np.all(e.bands(k) == 0), "empty-model")
    # random changes: all parameters, of the requested size, zeros on request, overlap on request
    sigma = float(10 ** rng.uniform(-2, 1))
    H = np.array(gen_params(rng, len(nb), n1, "generic")[0], complex) + 0
    H[0] += np.eye(n1)
    H[rng.random(H.shape) < .3] = 0
    keep = bool(rng.random() < .5)
    if rng.random() < .5:
        m = BandStructureModel.init_tight_binding(Symmetry.none(dim), nb, n1, exp=True)
        m.params = np.array(H)
        m.randomize(sigma, keep_zeros=keep)
        d = m.params - H
    else:
        S = np.array(HFS.unit_matrix(nb, n1).H_r, complex)
        m = asym(nb, H, nb, S)
        do = bool(rng.random() < .5)
        m.randomize(sigma, keep_zeros=keep, randomize_S=do)
        d = m.H.H_r - H
        ds = m.S.H_r - S
        if do:
            c.ok(np.all(ds[S != 0] != 0) and (np.all(ds[S == 0] == 0) if keep else np.all(ds != 0)), "randomized-overlap")
        else:
            c.ok(np.all(ds == 0), "overlap-left-alone")
    z = np.abs(H) == 0
    c.ok(np.all(d[z] == 0) if keep else np.all(d[z] != 0), "zeros-kept-on-request", f"{keep}")
    c.ok(np.all(d[~z] != 0), "all-randomized")
    x = np.concatenate([d.real[~z] if keep else d.real.ravel(), d.imag[~z] if keep else d.imag.ravel()]) / sigma
    c.ok(np.all(np.abs(x) < 7), "random-size", f"{x}")
    if len(x) >= 40:
        c.ok(.5 < np.std(x) < 1.6, "random-deviation", f"{np.std(x)}")
    h = len(x) // 2
    if h >= 24:
        c.ok(np.std(x[h:]) > .25 and np.std(x[:h]) > .25, "random-deviation-parts")
    c.key(H, keep)
