"""C07 fitting: recording logger + re-execution with truncated iteration counts give a trace that is judged against recomputed losses."""
import warnings
import numpy as np
from .core import *
from .models import *
from .c01 import legacy_model

P = "C07"


def my_loss(bands, data, w, off):
    e = (bands[:, off:off + data.shape[1]] - data)
    return np.sqrt(np.sum((e * w)**2) / len(bands)), np.abs(e).max(0)


METHODS = ["bsm", "bsm-nopinv", "bsm-batch", "bsm-cg", "bsm-cg-noprecond", "asym", "asym-nopinv", "asym-lstsq", "asym-batch", "asym-cg", "asym-cg-noprecond"]


def make(method, nb, H, mode, sym=None):
    return bsm(nb, H, *mode, sym) if method.startswith("bsm") else asym(nb, H)


def fit(m, method, k, data, w, off, its, log=False, batch=3, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with quiet():
            if method in ("bsm", "asym"):
                return m.optimize(k, 1.0, data, w, off, its, log=log, **kw)
            if method in ("bsm-nopinv", "asym-nopinv"):
                return m.optimize(k, 1.0, data, w, off, its, log=log, use_pinv=False, **kw)
            if method in ("bsm-batch", "asym-batch"):
                return m.optimize(k, 1.0, data, w, off, its, log=log, batch_div=batch, **kw)
            if method == "asym-lstsq":
                return m.optimize(k, 1.0, data, w, off, its, log=log, use_lstsq_stepsize=True, **kw)
            if method == "bsm-cg":
                return m.optimize_cg(k, 1.0, data, w, off, its, log=log, **kw)
            if method == "bsm-cg-noprecond":
                return m.optimize_cg(k, 1.0, data, w, off, its, log=log, precond=False, **kw)
            if method == "asym-cg":
                return m.optimize_cg(k, data, w, off, its, log=log, **kw)
            return m.optimize_cg(k, data, w, off, its, log=log, precond=False, **kw)


def problem(rng, noise=None, n=None, extra=None):
    dim = int(rng.integers(1, 4))
    n = n or int(rng.integers(1, 4))
    nb = half_space(dim, {1: 3, 2: 1, 3: 1}[dim], rng, count=int(rng.integers(1, 5)))
    H, kind = gen_params(rng, len(nb), n, "generic")
    scale = 10 ** rng.uniform(-1, 1)
    H *= scale
    k = rng.random((int(rng.integers(len(nb) * 4, len(nb) * 4 + 40)), dim))
    ref = Ref.of(nb, H)
    off = 0
    data = ref.bands(k)
    w = np.ones(n)
    return dim, n, nb, H, k, ref, data, scale


@workload(P, quick=250, thorough=5000)
def logged_loss(c, rng):
    """the reported numbers belong to the model, along the whole trace; full-batch fits never end worse; inputs stay untouched"""
    dim, n, nb, H, k, ref, data, scale = problem(rng)
    method = str(rng.choice(METHODS))
    mode = MODES[int(rng.integers(4))]
    variant = str(rng.choice(["same-form", "far", "random-data"]))
    off, nd = 0, n
    if n > 1 and rng.random() < 0.4:
        nd = int(rng.integers(1, n + 1))
        off = int(rng.integers(0, n - nd + 1))
    if variant == "random-data":
        data = np.sort(rng.standard_normal(data.shape), axis=1) * scale
    data = np.array(data[:, off:off + nd])
    start = H + (0.05 if variant == "same-form" else 1.0) * scale * gen_params(rng, len(nb), n, "generic")[0]
    w = np.ones(nd) if rng.random() < 0.6 else rng.uniform(0.6, 1.6, nd)
    kw = {}
    if method.startswith("bsm") and rng.random() < 0.15 and "cg" not in method:
        kw["learning_rate"] = float(rng.uniform(0.3, 1.0))
    its = int(rng.integers(1, 26)) if "batch" not in method else int(rng.choice([3, 30, 120]))
    m = make(method, nb, start, mode)
    l0 = my_loss(m.bands(k), data, w, off)[0]
    args = digest(k, data, w, nb)
    log = fit(m, method, k, data, w, off, its, **kw)
    c.ok(digest(k, data, w, nb) == args, f"fit-inputs-unchanged:{method}")
    b = m.bands(k)
    l1, e1 = my_loss(b, data, w, off)
    tol = dict(rtol=1e-9, atol=1e-11 * scale)
    c.close(log.last_loss(), l1, f"final-loss:{method}", **tol)
    c.close(log.stream[-1][2], e1, f"final-max-error:{method}", rtol=1e-9, atol=1e-11 * scale)
    c.close(m.loss(k, data, w, off), l1, f"model-loss:{method}", **tol)
    c.ok(len(log.iterations) == len(log.loss) and log.iterations == sorted(log.iterations), f"log-iterations:{method}", f"{log.iterations}")
    c.ok(log.iterations[-1] <= its and not log.aborted, f"log-iteration-bound:{method}", f"{log.iterations}")
    H0 = m.params_complex()[0]
    c.close(H0, H0.conj().T, f"hermitian-after-fit:{method}", rtol=1e-10, scale=np.abs(H0).max())
    if "batch" not in method:
        # a full step with the pseudoinverse is a projection and can't increase the loss (Hoffman-Wielandt),
        # momentum (without pseudoinverse) and linearised least squares (cg, lstsq step size) may overshoot, most of all far from a fit
        if method in ("bsm", "asym"):
            c.ok(l1 <= l0 * (1 + 1e-8) + 1e-11 * scale, f"not-worse:{method}", f"{l0} -> {l1}", mode=mode, variant=variant)
        elif variant == "same-form":
            c.ok(l1 <= 3 * l0 + 1e-11 * scale, f"stays-close:{method}", f"{l0} -> {l1}", mode=mode, variant=variant)
        # trace: stopping after j iterations gives the loss which the long run logged at iteration j
        lg = dict()
        for it, l in zip(log.iterations[:-1], log.loss[:-1]):
            c.ok(it not in lg, f"iteration-logged-once:{method}")
            lg[it] = l
        le = {x[0]: x[2] for x in log.stream[:-1] if not isinstance(x, str)}
        for j in sorted(set([0, min(1, its), int(rng.integers(0, its + 1))])):
            if j in lg:
                m2 = make(method, nb, start, mode)
                pl = fit(m2, method, k, data, w, off, j, **kw)
                lj, ej = my_loss(m2.bands(k), data, w, off)
                c.close(lg[j], lj, f"logged-loss-is-models:{method}", rtol=1e-6, atol=1e-9 * scale, iteration=j)
                if j in le:
                    c.close(le[j], ej, f"logged-max-error-is-models:{method}", rtol=1e-5, atol=1e-8 * scale, iteration=j)
                c.event("trace-points")
        if its > 0 and 0 in lg:
            c.close(lg[0], l0, f"first-logged-is-start:{method}", rtol=1e-8, atol=1e-10 * scale)
    else:
        for it in log.iterations[:-1]:
            c.ok(it % 100 == 0, f"batch-log-points:{method}")
        if len(log.iterations) > 1:
            c.close(log.loss[0], l0, f"first-logged-is-start:{method}", rtol=1e-8, atol=1e-10 * scale)
    c.key(nb, start, method)
    c.note(method=method, mode=mode, variant=variant, start=l0, end=l1, iterations=its)


@workload(P, quick=60, thorough=2500)
def few_points(c, rng):
    """fewer k-points than translations (or coinciding points): the fit is underdetermined, and what is reported is true and a full step never gets worse"""
    dim, n, nb, H, k, ref, data, scale = problem(rng)
    method = METHODS[int(rng.integers(len(METHODS)))]
    mode = MODES[int(rng.integers(4))]
    kind = str(rng.choice(["fewer", "coinciding", "line"]))
    if kind == "fewer":
        k = k[:int(rng.integers(1, 2 * len(nb) + 1))]
    elif kind == "coinciding":
        k = k[rng.integers(0, int(rng.integers(1, len(nb) + 1)), int(rng.integers(1, 9)))]
    else:
        k = k[:1] + np.linspace(0, .4, int(rng.integers(2, 8)))[:, None] * np.eye(dim)[0]
    data = ref.bands(k)
    near = rng.random() < .5
    start = H + (0.05 if near else 1.0) * scale * gen_params(rng, len(nb), n, "generic")[0]
    w = np.ones(n)
    m = make(method, nb, start, mode)
    l0 = my_loss(m.bands(k), data, w, 0)[0]
    its = int(rng.integers(1, 12))
    args = digest(k, data, w)
    log = fit(m, method, k, data, w, 0, its, batch=min(3, len(k)))
    c.event(kind)
    c.event(method)
    c.ok(digest(k, data, w) == args, f"fit-inputs-unchanged:{method}")
    l1, e1 = my_loss(m.bands(k), data, w, 0)
    c.close(log.last_loss(), l1, f"few:final-loss:{method}", rtol=1e-9, atol=1e-11 * scale)
    c.close(log.stream[-1][2], e1, f"few:final-max-error:{method}", rtol=1e-9, atol=1e-11 * scale)
    H0 = m.params_complex()[0]
    c.close(H0, H0.conj().T, f"hermitian-after-fit:{method}", rtol=1e-10, scale=np.abs(H0).max())
    if method in ("bsm", "asym"):
        c.ok(l1 <= l0 * (1 + 1e-8) + 1e-11 * scale, f"few:not-worse:{method}", f"{l0} -> {l1}")
    c.key(nb, start, method, k)
    c.note(method=method, kind=kind, start=l0, end=l1)


@workload(P, quick=120, thorough=2500)
def recovery(c, rng):
    """data generated by a model of the same form, starting close to it"""
    dim, n, nb, H, k, ref, data, scale = problem(rng)
    method = str(rng.choice(["bsm", "bsm-cg", "bsm-cg-noprecond", "asym", "asym-cg", "asym-cg-noprecond"]))
    mode = MODES[int(rng.integers(4))]
    start = H + 0.01 * scale * gen_params(rng, len(nb), n, "generic")[0]
    w = np.ones(n)
    m = make(method, nb, start, mode)
    l0 = my_loss(m.bands(k), data, w, 0)[0]
    its = 60
    log = fit(m, method, k, data, w, 0, its)
    l1 = my_loss(m.bands(k), data, w, 0)[0]
    c.ok(l1 <= 0.35 * l0 + 1e-10 * scale, f"recovered:{method}", f"{l0} -> {l1}")
    # also away from the sampled points
    kt = rng.random((40, dim))
    rt = ref.bands(kt)
    c.ok(my_loss(m.bands(kt), rt, w, 0)[0] <= 0.5 * scale * 0.05 * len(nb) * n + 1e-9, f"generalises:{method}")
    # the exact model is a fixed point
    m = make(method, nb, H, mode)
    fit(m, method, k, data, w, 0, 5)
    c.close(m.bands(k), data, f"exact-stays:{method}", rtol=0, atol=1e-8 * scale)
    c.key(nb, H, method)
    c.note(method=method, start=l0, end=l1)


def components(m, k):
    H = m.H.f(k) if hasattr(m, "H") else m.f(k)
    adj = np.max(np.abs(H), axis=0) > 1e-9
    n = len(adj)
    lab = list(range(n))
    for _ in range(n):
        for i in range(n):
            for j in range(n):
                if adj[i, j]:
                    lab[i] = lab[j] = min(lab[i], lab[j])
    return [lab.count(x) for x in sorted(set(lab))], lab


@workload(P, quick=120, thorough=2500)
def keep_zeros(c, rng):
    dim, n, nb, H, k, ref, data, scale = problem(rng, n=3)
    method = str(rng.choice(["bsm", "bsm-nopinv", "bsm-cg", "asym", "asym-nopinv", "asym-cg", "asym-lstsq", "bsm-batch", "asym-batch"]))
    mode = MODES[int(rng.integers(4))]
    # block structure {0,1} + {2}: everything between the blocks is frozen; some neighbour matrices vanish completely
    mask = np.array([[1, 1, 0], [1, 1, 0], [0, 0, 1]]) if rng.random() < 0.7 else np.eye(3)
    start = (H + 0.3 * scale * gen_params(rng, len(nb), n, "generic")[0]) * mask
    dead = [i for i in range(1, len(nb)) if rng.random() < 0.4]
    start[dead] = 0
    m = make(method, nb, start, mode)
    if method.startswith("bsm") and not mode[1]:
        pass
    sizes0 = sorted(components(m, k)[0])
    fit(m, method, k, data, np.ones(n), 0, int(rng.integers(1, 12)), keep_zeros=True)
    p = m.params_complex()
    for i in dead:
        c.ok(np.abs(p[i]).max() <= 1e-12 * scale, f"dead-neighbor-stays-zero:{method}", f"{np.abs(p[i]).max()}")
    sizes1 = sorted(components(m, k)[0])
    c.ok(len(sizes1) >= len(sizes0), f"blocks-stay-decoupled:{method}", f"{sizes0} -> {sizes1}", mode=mode)
    if method.startswith("asym"):
        c.ok(np.abs(p * (1 - mask)).max() <= 1e-12 * scale, f"zeros-stay-in-place:{method}", f"{np.abs(p * (1 - mask)).max()}")
    c.key(nb, start, method)
    c.note(method=method, dead=dead, blocks=sizes1)


@workload(P, quick=150, thorough=2500)
def structured(c, rng):
    """parameters with a definite structure (real, imaginary, complex, absent): a fit of data of the same structure recovers it,
    with and without keep_zeros; entries that are absent stay absent"""
    dim = int(rng.integers(1, 4))
    n = int(rng.integers(1, 4))
    nb = half_space(dim, {1: 3, 2: 1, 3: 1}[dim], rng, count=int(rng.integers(1, 5)))
    scale = 10 ** rng.uniform(-1, 1)
    H = np.zeros((len(nb), n, n), dtype=complex)
    H[0] = np.diag(np.arange(n) * 3.0 + rng.uniform(-.5, .5, n))
    kinds = []
    for i in range(1, len(nb)):
        kind = str(rng.choice(["real", "imaginary", "complex", "current", "absent"], p=[.2, .3, .2, .2, .1]))
        a = rng.uniform(.3, 1, n) * rng.choice([-1, 1], n) * .5
        if kind in ("real", "imaginary", "complex"):
            H[i] = np.diag(a * {"real": 1, "imaginary": 1j, "complex": np.exp(1j * rng.uniform(0, 7))}[kind])
        elif kind == "current":
            s = rng.uniform(.3, 1, (n, n)) * rng.choice([-1, 1], (n, n)) * .3
            H[i] = 1j * (s + s.T) / 2
        kinds.append(kind)
    H *= scale
    f = rng.uniform(.85, 1.15, H.shape)
    f = (f + np.swapaxes(f, 1, 2)) / 2
    ref = Ref.of(nb, H * f)
    start = H
    k = rng.random((int(rng.integers(len(nb) * 6, len(nb) * 6 + 40)), dim))
    data = ref.bands(k)
    method = str(rng.choice(["bsm", "bsm-cg", "bsm-cg-noprecond", "asym", "asym-cg", "asym-cg-noprecond"]))
    mode = MODES[int(rng.integers(4))]
    keep = bool(rng.random() < .7)
    m = make(method, nb, start, mode)
    w = np.ones(n)
    l0 = my_loss(m.bands(k), data, w, 0)[0]
    with_zeros = np.abs(m.params_complex()) < 1e-12 * scale
    log = fit(m, method, k, data, w, 0, 60, keep_zeros=keep)
    l1, e1 = my_loss(m.bands(k), data, w, 0)
    c.event(f"structured:{'keep' if keep else 'free'}")
    c.close(log.last_loss(), l1, f"final-loss:{method}", rtol=1e-9, atol=1e-11 * scale)
    c.ok(l1 <= l0 * (1 + 1e-8) + 1e-11 * scale, f"not-worse:{method}", f"{l0} {l1}")
    c.ok(l1 <= 0.35 * l0 + 1e-9 * scale, f"structure-recovered:{method}", f"{l0} -> {l1} {kinds} keep={keep} mode={mode}")
    if keep:
        p = m.params_complex()
        for i, kd in enumerate(kinds):
            if kd == "absent":
                c.ok(np.abs(p[i + 1]).max() <= 1e-12 * scale, f"dead-neighbor-stays-zero:{method}")
    c.key(nb, H, f, method, keep)


@workload(P, quick=80, thorough=1500)
def frozen_and_regularized(c, rng):
    """train_k0=False keeps H(0); a symmetric coefficient set stays symmetric; overlap models report their loss"""
    dim, n, nb, H, k, ref, data, scale = problem(rng)
    pick = int(rng.integers(3))
    if pick == 0:
        m = bsm(nb, H + 0.2 * scale * gen_params(rng, len(nb), n, "generic")[0], True, bool(rng.random() < 0.5))
        k0 = np.zeros((1, dim))
        b0 = m.bands(k0)
        with quiet():
            m.optimize(k, 1.0, data, np.ones(n), 0, 8, train_k0=False, log=False)
        c.close(m.bands(k0), b0, "train-k0-frozen", rtol=1e-9, scale=ref.scale())
    elif pick == 1:
        sym = Symmetry.inv(dim)
        nbs = nb
        m = bsm(nbs, herm(H) + 0.2 * scale * herm(gen_params(rng, len(nb), n, "generic")[0]), *MODES[int(rng.integers(4))], sym)
        # the preconditioned CG needs linearly independent coefficient functions (an inversion symmetric model in sin/cos form has sin=0)
        method = str(rng.choice(["bsm", "bsm-cg"])) if m.exp else "bsm"
        data = bsm(nbs, herm(H), False, False, sym).bands(k)
        l0 = my_loss(m.bands(k), data, np.ones(n), 0)[0]
        log = fit(m, method, k, data, np.ones(n), 0, 8)
        l1 = my_loss(m.bands(k), data, np.ones(n), 0)[0]
        c.close(log.last_loss(), l1, "final-loss:symmetric", rtol=1e-9, atol=1e-11 * scale)
        c.close(m.bands(-k), m.bands(k), "inversion-kept-by-fit", rtol=1e-9, scale=ref.scale())
        c.ok(l1 <= l0 * (1 + 1e-8) + 1e-11 * scale, "not-worse:symmetric", f"{l0} {l1}")
    else:
        S = gen_overlap(rng, nb, n, 0.3)
        data = Ref.of(nb, H, nb, S).bands(k)
        m = asym(nb, H + 0.05 * scale * gen_params(rng, len(nb), n, "generic")[0], nb, S)
        s_before = m.S.f(k)
        method = str(rng.choice(["asym", "asym-cg", "asym-nopinv"]))
        l0 = my_loss(m.bands(k), data, np.ones(n), 0)[0]
        log = fit(m, method, k, data, np.ones(n), 0, 8)
        l1 = my_loss(m.bands(k), data, np.ones(n), 0)[0]
        c.close(log.last_loss(), l1, "final-loss:overlap", rtol=1e-8, atol=1e-10 * scale)
        S1 = m.S.f(k)
        c.close(S1, np.conj(np.swapaxes(S1, -1, -2)), "overlap-hermitian", rtol=1e-10)
        c.close(np.linalg.det(S1) / np.linalg.det(S1[:1]), np.linalg.det(s_before) / np.linalg.det(s_before[:1]), "overlap-only-rotated", rtol=1e-7)
    c.key(nb, H, pick)


@workload(P, quick=40, thorough=800)
def from_reference(c, rng):
    """init_*_from_ref starts at the right Gamma energies and fits from there report their own loss"""
    dim, n, nb, H, k, ref, data, scale = problem(rng)
    k = np.concatenate([k, np.zeros((1, dim))])
    data = ref.bands(k)
    cls = str(rng.choice(["bsm", "asym"]))
    np.random.seed(int(rng.integers(2**31)))
    args = digest(k, data)
    if cls == "bsm":
        mode = MODES[int(rng.integers(4))]
        m = BandStructureModel.init_tight_binding_from_ref(none(dim), nb, k, data, cos_reduced=mode[0], exp=mode[1])
        c.ok(m.cos_reduced == mode[0] and m.exp == mode[1], "from-ref-mode")
        tol = 0.02 * len(nb) * n * 4
    else:
        m = AsymTightBindingModel.init_from_ref(nb, k, data)
        tol = 0.01 * len(nb) * n * 4 * (np.ptp(data) + 0.1)
    c.close(m.bands(np.zeros((1, dim))), data[-1:], "from-ref-gamma", rtol=0, atol=tol)
    log = fit(m, cls + str(rng.choice(["", "-cg"])), k, data, np.ones(n), 0, 10)
    c.close(log.last_loss(), my_loss(m.bands(k), data, np.ones(n), 0)[0], "final-loss:from-ref", rtol=1e-9, atol=1e-11 * scale)
    c.ok(digest(k, data) == args, "from-ref-inputs-unchanged")
    c.key(nb, H)


@workload(P, quick=6, thorough=30)
def train_overlap(c, rng):
    """train_S=True (recorded finding: the option is unusable)"""
    nb, H, kind = gen_model(rng, 1, 2, m=2, count=2, kind="generic")
    S = gen_overlap(rng, nb, 2, 0.2)
    k = rng.random((30, 1))
    data = Ref.of(nb, H, nb, S).bands(k)
    m = asym(nb, H + 0.01 * gen_params(rng, len(nb), 2, "generic")[0], nb, S)
    l0 = my_loss(m.bands(k), data, np.ones(2), 0)[0]
    try:
        with quiet():
            m.optimize(k, 1.0, data, np.ones(2), 0, 5, train_S=True, log=False)
    except (UnboundLocalError, np.linalg.LinAlgError) as e:
        c.fail("asym-optimize-train_S", repr(e))
    l1 = my_loss(m.bands(k), data, np.ones(2), 0)[0]
    c.ok(l1 <= l0 * (1 + 1e-8), "asym-optimize-train_S", f"{l0} -> {l1}")


@workload(P, quick=8, thorough=60)
def autofit(c, rng):
    """the automatic fit of data with a symmetric generator: checkpoints are on disk, the last one is the returned model, the neighbours are the requested ones"""
    import os
    from tight_binding_redweasel.tight_binding_asym import autofit_asym
    dim = int(rng.integers(1, 3))
    sym = Symmetry.inv(1) if dim == 1 else [Symmetry.inv(2), Symmetry.square()][int(rng.integers(2))]
    src = [(0,), (1,), (2,), (3,)] if dim == 1 else [(0, 0), (1, 0), (1, 1), (2, 0)]
    src = np.array(src[:int(rng.integers(3, 5))], float)
    n = int(rng.integers(1, 3))
    # generator: one band per orbital
    reps = [np.array(sym.complete_neighbors([r]), float) for r in src]
    t = rng.standard_normal((len(src), n)) * np.array([1, .5, .2, .1])[:len(src), None]
    k = rng.uniform(-.5, .5, size=(30, dim))
    k[int(rng.integers(30))] = 0
    data = np.sort(sum(t[i][None] * sum(np.cos(2 * np.pi * (k @ r)) for r in reps[i])[:, None] for i in range(len(src))) + 3 * np.arange(n), axis=1)
    start = int(rng.integers(1, len(src) - 1))
    args = digest(k, data, src)
    np.random.seed(int(rng.integers(2**31)))
    with scratch(), quiet():
        tb = autofit_asym("x", src, k, data, np.ones(n), sym, start_neighbors_count=start, restarts=2, randomize=bool(rng.random() < .5))
        files = sorted(os.listdir("."))
        first = AsymTightBindingModel.load("asym_x_start.json")
        last = AsymTightBindingModel.load(f"asym_x_{len(src)}.json")
    c.ok(digest(k, data, src) == args, "fit-inputs-unchanged:autofit")
    c.ok(files == sorted(["asym_x_start.json"] + [f"asym_x_{i}.json" for i in range(start + 1, len(src) + 1)]), "autofit-checkpoints", f"{files} {start} {len(src)}")
    want = np.concatenate(reps)
    got = tb.H.neighbors
    ok = len(got) == len(want) and all(min(np.linalg.norm(r - g) for g in got) < 1e-9 or min(np.linalg.norm(r + g) for g in got) < 1e-9 for r in want)
    c.ok(ok, "autofit-neighbours", f"{got} {want}")
    sc = np.abs(data).max()
    c.close(last.bands(k), tb.bands(k), "autofit-last-checkpoint", rtol=1e-9, scale=sc)
    l = my_loss(tb.bands(k), data, np.ones(n), 0)[0]
    l0 = my_loss(first.bands(k), data, np.ones(n), 0)[0]
    c.close(tb.loss(k, data, np.ones(n), 0), l, "model-loss:autofit", rtol=1e-9, atol=1e-11 * sc)
    c.ok(l <= .5 * l0 + 1e-3 * sc, "autofit-improves", f"{l0} -> {l}")
    c.key(data, start)


@workload(P, quick=60, thorough=800)
def legacy_fit(c, rng):
    """TightBindingModel.optimize: the printed final loss is the one of the returned model, the parameters stay hermitian, frozen ones stay where they are"""
    import contextlib
    import io
    m, nb, H, params, given, inv = legacy_model(rng)
    dim, n = nb.shape[1], H.shape[-1]
    k = rng.random((int(rng.integers(4, 20)), dim)) - .5
    lo = int(rng.integers(0, n))
    off = int(rng.integers(0, n))
    nref = int(rng.integers(1, n - off + 1))
    target = Ref.of(nb, H).bands(k)
    data = target[:, off:off + nref] + rng.choice([0, .05]) * rng.standard_normal((len(k), nref))
    w = rng.uniform(.3, 1, size=nref) if rng.random() < .5 else 1.0
    kw = float(1.0) if rng.random() < .5 else rng.uniform(.5, 1, size=len(k))
    m.params = m.params + herm(rng.standard_normal(m.params.shape) + 1j * rng.standard_normal(m.params.shape)) * .1 * np.where(np.abs(m.params) > 0, 1, 0)
    p0, args = m.params.copy(), (k.copy(), data.copy())
    frozen = bool(rng.random() < .4)
    div = int(rng.choice([1, 1, 2]))
    its = int(rng.choice([0, 1, 5, 40]))
    own = lambda: float(np.linalg.norm((m(k)[:, off:off + nref] - data) * w) / len(k)**.5)
    first = own()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.optimize(k, kw, data, w, off, its, batch_div=div, learning_rate=float(rng.choice([.1, .5])), train_k0=not frozen)
    got = float(out.getvalue().split("final loss:")[1])
    sc = np.max(np.abs(p0)) * len(p0)
    c.ok(np.array_equal(args[0], k) and np.array_equal(args[1], data), "legacy-fit:arguments-unchanged")
    c.close(got, own(), "legacy-fit:reported-loss", rtol=6e-3, atol=1e-9)
    c.close(m.loss(k, data, np.broadcast_to(w, nref), off), own(), "legacy-fit:loss", rtol=1e-9, atol=1e-12)
    c.close(m.params, np.conj(np.swapaxes(m.params, -1, -2)), "legacy-fit:hermitian", rtol=0, atol=1e-9 * sc)
    if frozen:
        c.close(m.params[0], p0[0], "legacy-fit:frozen-onsite", rtol=0, atol=1e-10 * sc)
    if its == 0:
        c.close(m.params, p0, "legacy-fit:no-step", rtol=0, atol=1e-10 * sc)
    if inv:
        s = m.unitary_repr.inv_split
        c.ok(not np.any(m.params[0][:s, s:]) and not np.any(m.params[0][s:, :s]), "legacy-fit:parity-blocks")
    if its == 40 and div == 1 and not frozen:
        c.event("legacy improved" if own() < first else "legacy not improved")
    c.event("legacy frozen" if frozen else "legacy free")
    c.key(nb, H, k, off)


@workload(P, quick=120, thorough=1500)
def interrupted_and_shrunk(c, rng):
    """a fit that is stopped by an interrupt at any logged iteration, or that shrinks its hoppings, still leaves a proper model and reports its true loss"""
    from tight_binding_redweasel.logger import OptimisationLogger
    dim, n, nb, H, k, ref, data, scale = problem(rng)
    method = str(rng.choice(METHODS))
    mode = MODES[int(rng.integers(4))]
    keep = bool(rng.random() < .4) and mode[1] and not mode[0]
    start = H + 0.3 * scale * gen_params(rng, len(nb), n, "generic")[0]
    if keep and n > 1:
        i, j = rng.choice(n, 2, replace=False)
        start[:, i, j] = start[:, j, i] = 0
    else:
        keep = False
    m = make(method, nb, start, mode)
    its = int(rng.integers(2, 20)) if "batch" not in method else 250
    kw = dict(keep_zeros=True) if keep else {}
    shrink = None
    if rng.random() < .4 and "cg" not in method:
        shrink = kw["regularization"] = float(rng.uniform(.9, .999))
    at = int(rng.integers(0, 4)) if shrink is None or rng.random() < .5 else None

    class Log(OptimisationLogger):
        calls = 0

        def add_data(self, *a):
            super().add_data(*a)
            self.calls += 1
            if self.calls - 1 == at:
                raise KeyboardInterrupt
    log = Log(print_loss=False, verbose=False)
    args = digest(k, data, nb)
    try:
        got = fit(m, method, k, data, np.ones(n), 0, its, log=log, **kw)
    except KeyboardInterrupt:
        # the last entry is added after the iterations, nothing has to catch that one
        c.ok(log.calls - 1 == at and m.bands(k).shape == data.shape, f"interrupt-after-fit:{method}")
        c.ok(log.iterations[-1] >= min(its, 1) or log.loss[-1] < 1e-10 or len(log.loss) > 1, f"interrupt-is-handled:{method}", f"{log.iterations}")
        c.event("interrupt after the iterations")
        got = log
    c.ok(got is log, f"given-log-is-used:{method}")
    l1, e1 = my_loss(m.bands(k), data, np.ones(n), 0)
    c.close(log.last_loss(), l1, f"final-loss:interrupted:{method}", rtol=1e-9, atol=1e-11 * scale)
    c.close(log.stream[-1][2], e1, f"final-max-error:interrupted:{method}", rtol=1e-9, atol=1e-11 * scale)
    if at is not None and log.calls > at + 1:
        c.ok(log.aborted, f"interrupt-is-noted:{method}")
        c.ok(log.calls == at + 2, f"interrupt-stops-the-fit:{method}", f"{log.calls} {at}")
        c.event("interrupt inside the iterations")
    c.ok(digest(k, data, nb) == args, f"fit-inputs-unchanged:{method}")
    H0 = m.params_complex()[0]
    c.close(H0, H0.conj().T, f"hermitian-after-interrupt:{method}", rtol=1e-8, scale=np.abs(H0).max() + scale)
    Hk = m.f(k) if method.startswith("bsm") else m.H.f(k)
    if np.abs(Hk).max() < 1e3 * scale:  # batches may diverge, and then the rounding errors of the steps remain
        c.close(Hk, np.conj(np.swapaxes(Hk, -1, -2)), f"hermitian-after-interrupt:{method}", rtol=1e-8, scale=1e3 * scale)
    c.close(m.bands(k), np.linalg.eigvalsh(Hk) if method.startswith("bsm") else m.bands(k), f"bands-after-interrupt:{method}", rtol=1e-7, scale=np.abs(Hk).max() + scale)
    # a shrunk start model that already fits stays where it is
    if method in ("bsm", "asym", "bsm-nopinv", "asym-nopinv"):
        r = float(rng.uniform(.5, .99))
        m, goal = make(method, nb, start, mode), make(method, nb, start, mode)
        if method.startswith("bsm"):
            goal.normalize()  # the shrinking is defined on the normalised start
            goal.params = np.concatenate([goal.params[:1], goal.params[1:] * r])
        else:
            goal.normalize()
            goal.H.H_r = np.concatenate([goal.H.H_r[:1], goal.H.H_r[1:] * r])
        b = goal.bands(k)
        log = fit(m, method, k, b, np.ones(n), 0, 1, regularization=r)
        c.close(m.bands(k), b, f"shrunk-once:{method}", rtol=1e-7, atol=1e-9 * scale, scale=scale)
        c.close(log.last_loss(), my_loss(m.bands(k), b, np.ones(n), 0)[0], f"final-loss:shrunk:{method}", rtol=1e-6, atol=1e-9 * scale)
    c.key(nb, start, method, at)


# what a log does with the data that a fit reports
from . import c26 as _c26  # noqa: E402
workload(P, quick=40, thorough=400)(_c26.logs)
