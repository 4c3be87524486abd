"""C23 purity: random histories of public queries against pristine twins, caller arrays, copies, process state."""
import contextlib
import copy
import io
import os
import warnings
import numpy as np
from .core import *
from .models import *
from . import groups as G
from . import reps as R
from .dosmodels import K, any_model, lattice
from .thermal import filling
from .c20 import gen_path
from .qegen import Run
from tight_binding_redweasel import HamiltonianSymmetry, kpaths, bulk_properties as bulk, loss, smearing, fermi_surface as fs
from tight_binding_redweasel import linalg, symmetry as symm, qespresso_interface as qe, logger, density_of_states as dosm
from tight_binding_redweasel.density_of_states import DensityOfStates
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
warnings.simplefilter("ignore")
P = "C23"


# ------------------------------------------------------------------ comparison of results

def freeze(x):
    """a detached value: nothing the library still holds"""
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        return x
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((freeze(y) for y in x), key=repr)
    if isinstance(x, G.Symmetry):
        return [np.array(x.S), x.inversion, x.projective]
    if isinstance(x, UnitaryRepresentation):
        return [np.array(x.U), x.inv_split, freeze(x.sym)]
    if isinstance(x, AsymTightBindingModel):
        return [np.array(v) for v in (x.H.neighbors, x.H.H_r, x.S.neighbors, x.S.H_r)]
    if isinstance(x, HermitianFourierSeries):
        return [np.array(x.neighbors), np.array(x.H_r)]
    if isinstance(x, BandStructureModel):
        return [np.array(x.params), np.array(x.neighbors), x.cos_reduced, x.exp]
    if isinstance(x, HamiltonianSymmetry):
        return [freeze(x.sym), freeze(x.U), freeze(x.pos), list(x.names)]
    raise TypeError(type(x))


def differ(a, b, rtol):
    """None or a description of the first difference"""
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b):
            return f"length {len(a)} != {len(b)}"
        for x, y in zip(a, b):
            d = differ(x, y, rtol)
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return "keys"
        return next((d for d in (differ(a[k], b[k], rtol) for k in a) if d), None)
    if isinstance(a, (str, bytes, type(None), bool)) or isinstance(b, (str, bytes, type(None), bool)):
        return None if a == b else f"{a!r} != {b!r}"
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    if a.dtype.kind not in "biufc" or b.dtype.kind not in "biufc":
        return None if np.array_equal(a, b) else "values"
    if a.dtype.kind == "b" or b.dtype.kind == "b":
        return None if np.array_equal(a, b) else "values"
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return "nan pattern"
    with np.errstate(all="ignore"):
        fin = np.isfinite(a) & np.isfinite(b)
        if not np.array_equal(a[~fin], b[~fin], equal_nan=True):
            return "infinities"
        if a.size and np.any(fin):
            e = np.abs(a[fin] - b[fin]).max()
            if e > rtol * max(np.abs(b[fin]).max(), 1e-300):
                return f"deviation {e:.3e} of {np.abs(b[fin]).max():.3e}"
    return None


def world():
    """process-wide state no query may touch"""
    return [repr(np.get_printoptions()), repr(np.geterr()), digest(kpaths.points), digest(qe.pp_files), os.getcwd(), digest(bulk.epsilon if hasattr(bulk, "epsilon") else 0)]


class History:
    """runs queries on an object; a query is (name, function(object), caller's values)"""

    def __init__(self, c, factory, queries, rtol=1e-9, tag=""):
        self.c, self.factory, self.queries, self.rtol, self.tag = c, factory, queries, rtol, tag

    def ask(self, obj, q, lenient=False):
        name, fn, args = q
        before = digest(*args)
        w = world()
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            try:
                res = freeze(fn(obj))
            except Exception as e:
                if not lenient:  # after arbitrary mutations the object may be no valid one
                    raise
                res = "raised " + type(e).__name__
        self.c.event(f"query {self.tag}{name}")
        self.c.ok(digest(*args) == before, f"caller-values:{name}", "a query changed a value the caller passed in")
        now = world()
        self.c.ok(now == w, f"process-state:{name}", f"{[i for i in range(len(w)) if w[i] != now[i]]}")
        return res

    def baseline(self):
        """every query as the first query of its own pristine object"""
        return [self.ask(self.factory(), q) for q in self.queries]

    def same(self, got, want, mech, msg=""):
        d = differ(got, want, self.rtol)
        self.c.ok(d is None, mech, f"{msg}: {d}")

    def interleave(self, rng, obj, base, n):
        """any order, repetitions included"""
        asked = []
        for _ in range(n):
            i = int(rng.integers(len(self.queries)))
            asked.append(self.queries[i][0])
            self.same(self.ask(obj, self.queries[i]), base[i], f"repeatable:{asked[-1]}", f"after {asked[-6:-1]}")
        self.c.event("histories")
        self.c.key(self.tag, asked)

    def fingerprint(self, obj, lenient=False):
        return [self.ask(obj, q, lenient) for q in self.queries]

    def unchanged(self, obj, base, mech, what, lenient=False):
        for q, b in zip(self.queries, base):
            self.same(self.ask(obj, q, lenient), b, f"{mech}:{q[0]}", what)

    def copies(self, rng, mutators, copier, n=3):
        """mutate a copy: the original answers as before, and vice versa; also copies of copies"""
        o = self.factory()
        base = self.fingerprint(o)
        c = copier(o)
        self.unchanged(c, base, "copy-equals-original", "a fresh copy answers differently")
        for turn in range(2):
            x, y, yb = (c, o, base) if turn == 0 else (o, c, None)
            if yb is None:
                yb = self.fingerprint(c, True)
            hist = []
            for _ in range(int(rng.integers(1, n + 1))):
                name, fn = mutators[int(rng.integers(len(mutators)))]
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        fn(x)
                    except (ValueError, AssertionError, NotImplementedError, IndexError) as e:
                        name += f"({type(e).__name__})"
                hist.append(name)
                self.c.event(f"mutation {self.tag}{name}")
            self.unchanged(y, yb, "copy-independent" if turn == 0 else "original-independent", f"changed by {hist} on the other one", turn == 1)
            self.c.key(self.tag, hist)


def attr(*path):
    def get(o):
        for p in path:
            o = getattr(o, p)
        return o
    return get


# ------------------------------------------------------------------ models

def model_queries(rng, dim, n, kind, rank):
    k = rng.uniform(-1, 1, size=(int(rng.integers(2, 7)), dim))
    ref = np.sort(rng.normal(size=(len(k), max(1, n - int(rng.integers(2))))), axis=-1)
    w = rng.uniform(.1, 1, size=ref.shape[1])
    off = int(rng.integers(n - ref.shape[1] + 1))
    lo, hi = -1.0, float(rng.uniform(0, 2))
    L = np.eye(dim) * int(rng.integers(1, 3))
    L[0, -1] += int(rng.integers(2)) * (dim > 1)
    A0 = np.eye(dim)
    x = float(rng.normal())
    q = [("bands", lambda m: m.bands(k), (k,)), ("call", lambda m: m(k), (k,)),
         ("grad", lambda m: m.bands_grad(k), (k,)), ("hess", lambda m: m.bands_grad_hess(k), (k,)),
         ("error", lambda m: m.error(k, ref, w, off), (k, ref, w)), ("loss", lambda m: m.loss(k, ref, w, off), (k, ref, w)),
         ("windowed", lambda m: m.windowed_loss(k, ref, lo, hi), (k, ref)), ("windowed-skip", lambda m: m.windowed_loss(k, ref, lo, hi, True), (k, ref)),
         ("print_error", lambda m: m.print_error(k, ref, w, off), (k, ref, w)),
         ("params_complex", lambda m: m.params_complex(), ()), ("band_count", lambda m: m.band_count(), ()),
         ("copy", lambda m: m.copy(), ()), ("shift", lambda m: m + x, ()), ("scale", lambda m: m * x, ()), ("sum", lambda m: m + m.copy(), ())]

    def saved(m, fmt):
        with scratch():
            m.save("x." + fmt, format=fmt)
            return open("x." + fmt).read()
    q.append(("save-json", lambda m: saved(m, "json"), ()))
    if kind == "asym":
        q += [("H.f", lambda m: m.H.f(k), (k,)), ("S.df", lambda m: m.S.df(k), (k,)), ("H.ddf", lambda m: m.H.ddf(k), (k,)), ("dim", lambda m: m.dim(), ()),
              ("neighbors", lambda m: [m.H.neighbors, m.H.H_r, m.S.neighbors, m.S.H_r], ())]
    else:
        q += [("f", lambda m: m.f(k), (k,)), ("df", lambda m: m.df(k), (k,)), ("ddf", lambda m: m.ddf(k), (k,)), ("state", lambda m: [m.params, m.neighbors], ()),
              ("print_norms", lambda m: m.print_model_norms(), ()),
              ("electron_phonon", lambda m: [np.abs(x) for x in m.electron_phonon_coupling(k, [0, 1], [1])], (k,))]
    return q, (k, ref, w, off, L, A0)


def asym_factory(rng):
    nb, H, kind = gen_model(rng, nmax=4, kind=str(rng.choice(["generic", "real", "sparse"])), count=int(rng.integers(2, 8)))
    dim, n = len(nb[0]), H.shape[-1]
    if rng.random() < .5:
        S_nb = nb[:int(rng.integers(1, len(nb) + 1))]
        S = gen_overlap(rng, S_nb, n)
        f = lambda: asym(nb, H, S_nb, S)
    else:
        f = lambda: asym(nb, H)
    return f, nb, dim, n


def bsm_factory(rng):
    if rng.random() < .5:
        nb, H, kind = gen_model(rng, nmax=4, kind=str(rng.choice(["generic", "real", "sparse"])), count=int(rng.integers(2, 8)))
        cr, ex = MODES[int(rng.integers(4))]
        return (lambda: bsm(nb, H, cr, ex)), nb, len(nb[0]), H.shape[-1], False
    # a model with a symmetry of the coefficients and a symmetriser
    sym_kind = str(rng.choice(["inv", "cubic", "none"]))
    dim, n = 3, int(rng.integers(1, 4))
    sym = {"inv": lambda: G.Symmetry.inv(3), "cubic": lambda: G.Symmetry.cubic(True), "none": lambda: G.Symmetry.none(3)}[sym_kind]
    nb = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0)][:int(rng.integers(2, 4))], float)
    if sym_kind != "cubic":
        nb = sym().complete_neighbors(nb)
    cr, ex = MODES[int(rng.integers(4))]
    seed = int(rng.integers(2**31))

    def f():
        r = np.random.default_rng(seed)
        m = BandStructureModel.init_tight_binding(sym(), np.array(nb), n, cos_reduced=cr, exp=ex)
        m.params = np.array([herm(r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))) for _ in m.params])
        return m
    return f, nb, dim, n, True


@workload(P, quick=120, thorough=1500)
def asym_models(c, rng):
    f, nb, dim, n = asym_factory(rng)
    q, (k, ref, w, off, L, A0) = model_queries(rng, dim, n, "asym", None)
    q.append(("supercell", lambda m: m.supercell(A0, L), (A0, L)))
    # the matrices the model is built from belong to the caller as well
    h = History(c, f, q, tag="asym.")
    base = h.baseline()
    h.interleave(rng, f(), base, 25)
    k2 = rng.uniform(-.5, .5, size=(12, dim))
    ref2 = np.sort(rng.normal(size=(12, n)), -1)
    w2 = np.ones(n)
    A = np.eye(dim) * 2
    extra = np.full((1, dim), 7.0)
    order = rng.permutation(n)

    def inplace(m):
        m.H.H_r[...] *= 2
        m.S.H_r[...] += np.eye(n)
        m.H.neighbors[1:] += 1

    def opt(m, cg):
        a = digest(k2, ref2, w2)
        if cg:
            m.optimize_cg(k2, ref2, w2, 0, 2, log=False)
        else:
            m.optimize(k2, None, ref2, w2, 0, 2, log=False)
        c.ok(digest(k2, ref2, w2) == a, "caller-values:optimize")
    mut = [("randomize", lambda m: m.randomize(.5)), ("normalize", lambda m: m.normalize()), ("permute", lambda m: m.permute(order)), ("transform", lambda m: m.transform(A)),
           ("set_from_complex", lambda m: m.set_from_complex(m.params_complex() * 2)), ("add", lambda m: m.H.add_neighbors(extra)), ("limit", lambda m: m.H.limit_neighbors(1.0)),
           ("count", lambda m: m.H.limit_neighbor_count(1)), ("cleanup", lambda m: m.H.cleanup_neighbors(1.0)), ("in-place", inplace), ("randomize_S", lambda m: m.randomize(.01, randomize_S=True)),
           ("optimize", lambda m: opt(m, False)), ("optimize_cg", lambda m: opt(m, True))]
    h.copies(rng, mut, lambda m: m.copy())
    # models derived with arithmetic (public mutators only)
    pub = [x for x in mut if x[0] not in ("in-place", "optimize", "optimize_cg", "add", "randomize_S")]
    x = float(rng.normal())
    for name, derive in (("shift", lambda m: m + x), ("scale", lambda m: m * x), ("sum", lambda m: m + m.copy()), ("supercell", lambda m: m.supercell(A0, L))):
        o = f()
        d = derive(o)
        for _ in range(2):
            mname, fn = pub[int(rng.integers(len(pub)))]
            with contextlib.suppress(ValueError, AssertionError, IndexError, np.linalg.LinAlgError), contextlib.redirect_stdout(io.StringIO()):
                if mname == "permute":
                    d.permute(rng.permutation(d.band_count()))
                else:
                    fn(d)
        h.unchanged(o, base, f"derived-independent:{name}", mname)
    c.note(dim=dim, n=n)


@workload(P, quick=120, thorough=1500)
def band_models(c, rng):
    f, nb, dim, n, sym = bsm_factory(rng)
    q, (k, ref, w, off, L, A0) = model_queries(rng, dim, n, "bsm", None)
    if sym:
        q = [x for x in q if not x[0].startswith(("save", "sum"))]
    else:
        q.append(("supercell", lambda m: m.supercell(A0, L), (A0, L)))
    h = History(c, f, q, tag="bsm.")
    base = h.baseline()
    h.interleave(rng, f(), base, 25)
    N = 12
    k2 = rng.uniform(-.5, .5, size=(N, dim))
    k2w = np.ones(N)
    ref2 = np.sort(rng.normal(size=(N, n)), -1)
    w2 = np.ones(n)
    order = rng.permutation(n)

    def opt(m, cg):
        a = digest(k2, k2w, ref2, w2)
        (m.optimize_cg if cg else m.optimize)(k2, k2w, ref2, w2, 0, 2, log=False)
        c.ok(digest(k2, k2w, ref2, w2) == a, "caller-values:optimize")

    def inplace(m):
        m.params[...] *= 2

    def setp(m):
        H = m.params_complex() * 2
        a = digest(H)
        m.set_params_complex(H)
        m.params[...] *= 3
        c.ok(digest(H) == a, "caller-values:set_params_complex")

    def symmetrize(m):
        m.symmetrizer = lambda p: p * 0
        m.normalize()
    mut = [("randomize", lambda m: m.randomize(.5)), ("normalize", lambda m: m.normalize()), ("permute", lambda m: m.permute(order)), ("in-place", inplace),
           ("symmetrizer", symmetrize), ("optimize", lambda m: opt(m, False)), ("optimize_cg", lambda m: opt(m, True))]
    if not sym:
        mut.append(("set_params_complex", setp))
    h.copies(rng, mut, lambda m: m.copy())
    for name, derive in (("shift", lambda m: m + .3), ("scale", lambda m: m * 2.0)) + (() if sym else (("sum", lambda m: m + m.copy()), ("supercell", lambda m: m.supercell(A0, L)))):
        o = f()
        d = derive(o)
        for mname, fn in mut[:4]:
            if mname == "permute":
                d.permute(rng.permutation(d.band_count()))
            else:
                fn(d)
        h.unchanged(o, base, f"derived-independent:{name}", "public mutators on the derived model")
    # neighbours of the caller are never the model's
    src = np.array(nb, float)
    m = BandStructureModel.init_tight_binding(Symmetry.none(dim), src, n)
    m.transform(np.eye(dim) * 2)
    c.ok(np.array_equal(src, nb), "caller-values:init_tight_binding")


# ------------------------------------------------------------------ groups and representations

@workload(P, quick=120, thorough=1500)
def symmetries(c, rng):
    dim = int(rng.choice([1, 2, 3, 3]))
    name, ref = G.small(rng, dim, 24)
    sub = G.closure(list(ref[rng.integers(len(ref), size=1)]))
    B = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    seed = int(rng.integers(2**31))
    f = lambda: G.make(ref, np.random.default_rng(seed))
    other = lambda: G.make(sub)
    pts = rng.uniform(-.5, .5, size=(4, dim))
    neigh = np.concatenate([np.zeros((1, dim)), rng.uniform(-2, 2, size=(2, dim))])
    data = rng.normal(size=(4, 2))
    T = rng.normal(size=(dim, dim))
    b = rng.normal(size=(2, dim))
    o2 = other()
    fk = lambda k: np.cos(2 * np.pi * np.asarray(k)).sum(-1, keepdims=True)
    q = [("len", len, ()), ("check", lambda s: s.check(), ()), ("orthogonal", lambda s: s.is_orthogonal(), ()), ("transpose", lambda s: s.transpose(), ()),
         ("eq-self", lambda s: s == s, ()), ("eq", lambda s: s == o2, (o2,)), ("ops", lambda s: s.get_symmetry_operations(), ()), ("transform", lambda s: s.transform(B), (B,)),
         ("dual", lambda s: s.dual(), ()), ("check_symmetry", lambda s: s.check_symmetry(lambda k: np.array([np.linalg.norm(k)]), verbose=True), ()),
         ("realize", lambda s: s.realize_symmetric(pts), (pts,)), ("realize-cell", lambda s: s.realize_symmetric(pts, unit_cell=True), (pts,)),
         ("realize-data", lambda s: s.realize_symmetric_data(pts, data), (pts, data)), ("realize-data-cell", lambda s: s.realize_symmetric_data(pts, data, unit_cell=True, average_bad_duplicates=True), (pts, data)),
         ("reduce", lambda s: s.reduce_symmetric_data(pts, data, checked=False), (pts, data)),
         ("reduce-realized", lambda s: s.reduce_symmetric_data(*s.realize_symmetric_data(pts, data)), (pts, data)),
         ("complete", lambda s: s.complete_neighbors(neigh), (neigh,)), ("complete-order", lambda s: s.complete_neighbors(neigh, return_order=True), (neigh,)),
         ("k_weight", lambda s: s.k_weight(pts), (pts,)), ("r_class", lambda s: s.r_class_size(pts), (pts,)), ("classes", lambda s: s.find_classes(pts), (pts,)),
         ("symmetrize", lambda s: s.symmetrize(T), (T,)), ("symmetrize-pseudo", lambda s: s.symmetrize(T, rank=(0, 2), pseudo_tensor=True), (T,)),
         ("conjugacy", lambda s: [np.sort(np.asarray(x)) if np.ndim(x) == 1 else x for x in s.conjugacy_classes()], ()),
         ("subgroup", lambda s: s.subgroup(lambda x: np.linalg.norm(x @ pts[0] - pts[0])), (pts,)),
         ("remove_translation", lambda s: s.remove_translation(), ()), ("ignore_translation", lambda s: s.ignore_translation(), ()),
         ("contains", lambda s: o2 in s, (o2,)), ("str", str, ()), ("copy", lambda s: s.copy(), ()), ("S", lambda s: [s.S, s.inversion], ())]
    bad = []
    for x in q:  # queries outside their preconditions for this group are not asked
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x[1](f())
        except (ValueError, AssertionError, NotImplementedError, IndexError, KeyError) as e:
            bad.append(x[0])
            c.event(f"not-applicable {x[0]}:{type(e).__name__}")
    q = [x for x in q if x[0] not in bad]
    h = History(c, f, q, tag="sym.")
    base = h.baseline()
    h.interleave(rng, f(), base, 25)

    def inplace(s):
        s.S[...] = s.S[::-1] * 2

    def setinv(s):
        s.inversion = not s.inversion
    h.copies(rng, [("in-place", inplace), ("inversion", setinv)], lambda s: s.copy())
    # group constructors hand out fresh objects
    for ctor in (lambda: Symmetry.cubic(True), lambda: Symmetry.none(dim), lambda: Symmetry.inv(dim), lambda: Symmetry.perm3(), lambda: Symmetry.mirror3(), lambda: Symmetry.tetrahedral()):
        s = ctor()
        w = freeze(s)
        s.S = np.array(s.S) if rng.random() < .3 else s.S
        s.S[...] = 0
        s.inversion = "x"
        d = differ(freeze(ctor()), w, 0)
        c.ok(d is None, "constructor-fresh", d)


@workload(P, quick=120, thorough=1200)
def representations(c, rng):
    name, ref = G.small(rng, 3, 24)
    reps = R.some_reps(ref, rng)
    seed = int(rng.integers(2**31))
    i1, i2 = rng.integers(len(reps), size=2)

    def rep(i):
        sym = G.make(ref, np.random.default_rng(seed))
        sym = Symmetry(sym.get_symmetry_operations()) if sym.inversion else sym
        if sym.inversion:
            UI = reps[i][1][G.find(-np.eye(3), ref)]
            w = np.real(np.diag(UI))
            if not (np.allclose(UI, np.diag(w)) and np.all(np.diff(w) <= 1e-9)):
                raise Skip()
        return R.as_urep(sym, ref, reps[i][1])
    f = lambda: rep(i1)
    other = rep(i2)
    n = f().dim()
    nb = G.make(ref).complete_neighbors(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0]][:int(rng.integers(1, 4))], float))
    H = rng.normal(size=(len(nb), n, n)) + 1j * rng.normal(size=(len(nb), n, n))
    H[0] = herm(H[0])
    k = rng.uniform(-.5, .5, size=(3, 3))
    Mk = herm(rng.normal(size=(3, n, n)) + 1j * rng.normal(size=(3, n, n)))
    q = [("dim", lambda u: u.dim(), ()), ("check", lambda u: u.check(), ()), ("symmetrize", lambda u: u.symmetrize(H, nb), (H, nb)),
         ("symmetrizer", lambda u: u.symmetrizer(nb)(H), (H, nb)), ("symmetrize2", lambda u: u.symmetrize2(nb, H), (H, nb)),
         ("realize", lambda u: u.realize_symmetric_matrices(k, Mk), (k, Mk)), ("subspaces", lambda u: u.subspaces(), ()),
         ("check_symmetry", lambda u: u.check_symmetry(lambda k: np.zeros((len(k), n, n))), ()),
         ("add", lambda u: u + other, (other,)), ("radd", lambda u: other + u, (other,)), ("double", lambda u: u * 2, ()), ("product", lambda u: u * other, (other,)), ("rproduct", lambda u: other * u, (other,)),
         ("copy", lambda u: u.copy(), ()), ("U", lambda u: [u.U, u.inv_split, u.sym], ())]
    bad = []
    for x in q:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x[1](f())
        except (ValueError, AssertionError, NotImplementedError, IndexError) as e:
            bad.append(x[0])
            c.event(f"not-applicable {x[0]}:{type(e).__name__}")
    q = [x for x in q if x[0] not in bad]
    h = History(c, f, q, tag="urep.")
    base = h.baseline()
    h.interleave(rng, f(), base, 20)

    def inplace(u):
        u.U[...] *= -1
        u.inv_split = 0

    def insym(u):
        u.sym.S[...] = u.sym.S[::-1]

    def match(u):
        s = Symmetry(np.array(u.sym.S)[np.r_[0, 1 + np.random.permutation(len(u.sym.S) - 1)]], u.sym.inversion)
        u.match_sym(s)
        s.S[...] *= 1
    mut = [("in-place", inplace), ("sym-in-place", insym), ("match_sym", match)]
    if n > 1 and f().inv_split in (0, n):
        mut.append(("permute", lambda u: u.permute(np.roll(np.arange(n), 1))))
    h.copies(rng, mut, lambda u: u.copy())
    # the sum/product does not change or follow the summands
    for nm, op in (("add", lambda a, b: a + b), ("product", lambda a, b: a * b), ("double", lambda a, b: a * 2)):
        a, b = f(), rep(i2)
        fa, fb = freeze(a), freeze(b)
        try:
            d = op(a, b)
        except ValueError:
            continue
        d.U[...] = 0
        d.inv_split = -1
        c.ok(differ(freeze(a), fa, 0) is None and differ(freeze(b), fb, 0) is None, f"derived-independent:urep-{nm}")


def ham_factory(rng):
    name, ref = G.small(rng, 3, 48)
    while not any(np.allclose(g, -np.eye(3)) for g in ref) and rng.random() < .5:
        name, ref = G.small(rng, 3, 48)
    kinds = [str(x) for x in rng.choice(["s", "p", "d2", "d3"], size=int(rng.integers(1, 3)))]
    cubic = rng.random() < .4
    seed = int(rng.integers(2**31))

    def f():
        sym = Symmetry.cubic(True) if cubic else G.make(ref, np.random.default_rng(seed))
        h = HamiltonianSymmetry(sym)
        for i, x in enumerate(kinds):
            if x in ("d2", "d3") and not cubic:
                x = "p"
            getattr(h, "append_" + x)(np.zeros(3), f"{x}{i}")
        return h
    return f


@workload(P, quick=60, thorough=600)
def hamiltonian_symmetries(c, rng):
    f = ham_factory(rng)
    h0 = f()
    n = h0.dim()
    nb = h0.sym.complete_neighbors(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0]][:int(rng.integers(1, 4))], float))
    H = rng.normal(size=(len(nb), n, n)) + 1j * rng.normal(size=(len(nb), n, n))
    H[0] = herm(H[0])
    k = rng.uniform(-.5, .5, size=3)
    ks = rng.uniform(-.5, .5, size=(2, 3))
    Hk = herm(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    Hks = herm(rng.normal(size=(2, n, n)) + 1j * rng.normal(size=(2, n, n)))
    s = int(rng.integers(len(h0.sym.S)))
    ur = UnitaryRepresentation(f().sym, 1)
    q = [("dim", lambda x: x.dim(), ()), ("len", len, ()), ("names", lambda x: [x.get_band_name(i) for i in range(n)], ()),
         ("apply", lambda x: x.apply(k, Hk, s), (k, Hk)), ("apply-inv", lambda x: x.apply(k, Hk, s, inversion=True), (k, Hk)),
         ("symmetrize", lambda x: x.symmetrize(H, nb), (H, nb)), ("symmetrizer", lambda x: x.symmetrizer(nb)(H), (H, nb)),
         ("realize", lambda x: x.realize_symmetric(ks, Hks), (ks, Hks)), ("copy", lambda x: x.copy(), ()), ("state", lambda x: x, ())]
    h = History(c, f, q, tag="hsym.")
    base = h.baseline()
    h.interleave(rng, f(), base, 12)

    def inplace(x):
        x.U[0].U[...] *= 0
        x.pos[0][...] += .5
        x.names[0] = "changed"

    def insym(x):
        x.sym.S[...] = 0
    mut = [("append_s", lambda x: x.append_s(np.full(3, .5), "new")), ("append_p", lambda x: x.append_p(np.zeros(3), "P")), ("in-place", inplace), ("sym", insym)]
    h.copies(rng, mut, lambda x: x.copy())
    # what was appended stays the caller's
    o = f()
    pos = np.zeros(3)
    a = digest(ur.U, ur.inv_split, ur.sym.S, pos)
    o.append(ur, pos, "x")
    w = freeze(o)
    ur.U[...] = 7
    pos[...] = 3
    c.ok(differ(freeze(o), w, 0) is None, "appended-by-value")
    o.U[-1].U[...] = 0
    o.pos[-1][...] = 9
    c.ok(np.all(ur.U == 7) and np.all(pos == 3), "caller-values:append")
    # and a symmetriser stays what it was when the symmetry is extended
    o = f()
    z = o.symmetrizer(nb)
    r = z(H)
    o.append_s(np.zeros(3), "later")
    c.close(z(H), r, "symmetrizer-kept", rtol=1e-10)


# ------------------------------------------------------------------ density of states, integrals

@workload(P, quick=40, thorough=400)
def densities(c, rng):
    m0 = any_model(rng, 3)
    A = lattice(rng)
    sm = str(rng.choice(["cubes", "tetras", "spheres", "cubes+"]))
    N = 2 * int(rng.integers(2, 4))
    wrap = bool(rng.random() < .7)
    rg = ((-.5, .5),) * 3

    def f():
        return DensityOfStates(K(m0, A), N=N, A=A, smearing=sm, check=1e-6, wrap=wrap)
    a = digest(A, rg)
    d0 = f()
    c.ok(digest(A, rg) == a, "caller-values:DensityOfStates")
    nb = d0.model_bandcount()
    lo, hi = d0.energy_range()
    es = rng.uniform(lo, hi, 2)
    n = filling(rng, nb)
    T = np.array([0.0, float(rng.uniform(100, 900))])
    q = [("below", lambda d: [d.states_below(e) for e in es], (es,)), ("band", lambda d: [d.states_below_band(es[0], i) for i in range(nb)], ()),
         ("states_density", lambda d: d.states_density(es[1]), ()), ("density", lambda d: d.density(es[0]), ()), ("bands", lambda d: d.density_bands(es[1]), ()),
         ("cut", lambda d: d.cut_band_indices(es[0]), ()), ("curve", lambda d: d.full_curve(4), ()), ("curve-T", lambda d: d.full_curve(4, T=float(T[1])), ()),
         ("fermi", lambda d: d.fermi_energy(n), ()), ("gap", lambda d: d.bandgap(n), ()), ("range", lambda d: d.energy_range(), ()),
         ("mu", lambda d: d.chemical_potential(n, T, N=8), (T,)), ("energy", lambda d: [d.energy(es[0], 0.0, N=16), d.energy(es[0], float(T[1]), N=16)], ()),
         ("heat", lambda d: d.heat_capacity(n, float(T[1]), N=16), ()), ("seebeck", lambda d: d.seebeck(n, T[1:], N=8), (T,)), ("k_resolved", lambda d: d.k_resolved_density(es[0], 300.0, N=3), ()),
         ("state", lambda d: [d.bands_range, d.A], (A,))]
    if sm in ("cubes", "cubes+"):
        q += [("surface", lambda d: d.fermi_surface_samples(es[0], improved_points=False, improved_weights=False, normalize=None), ()),
              ("surface-improved", lambda d: d.fermi_surface_samples(es[0], improved_points=True, improved_weights=False, normalize=1.0), ())]
    ok = []
    for x in q:
        try:
            x[1](f())
            ok.append(x)
        except (ValueError, AssertionError, NotImplementedError, TypeError, IndexError) as e:
            c.event(f"not-applicable {x[0]}:{type(e).__name__}")
    h = History(c, f, ok, tag="dos.", rtol=1e-7)
    base = h.baseline()
    d = f()
    h.interleave(rng, d, base, 14)
    # the grid of the object is not the caller's array, nor the model's
    w = h.fingerprint(d)
    A0 = np.array(A)
    A *= 3
    h.unchanged(d, w, "lattice-by-value", "the caller reused the lattice array") if sm != "never" and np.asarray(d.A) is not A else c.event("lattice-live")
    A[...] = A0


@workload(P, quick=16, thorough=160)
def integrals(c, rng):
    m0 = any_model(rng, 2)
    A = lattice(rng)
    d = DensityOfStates(K(m0, A), N=6, A=A, check=1e-6)
    n = filling(rng, d.model_bandcount())
    T = [float(rng.uniform(50, 900))] if rng.random() < .7 else [0.0]
    try:
        bulk.KIntegral(d, n, T, N=5)
    except (NotImplementedError, ValueError, AssertionError):
        raise Skip()
    f = lambda: bulk.KIntegral(d, n, list(T), N=1 if T[0] == 0 else 5)
    g1 = lambda e, v, k: np.ones(len(v))
    g2 = lambda e, v, k: v[:, :, None] * v[:, None, :]
    g3 = lambda e, v, h, k: h[:, 0, 0] * v[:, 0]
    q = [("one", lambda x: x.integrate_df(g1), ()), ("vv", lambda x: x.integrate_df(g2, moments=2), ()), ("hess", lambda x: x.integrate_df(g3, hessians=True), ()),
         ("one-A", lambda x: x.integrate_df_A(A, g1), (A,)), ("hess-A", lambda x: x.integrate_df_A(A, g3, hessians=True), (A,)),
         ("transport", lambda x: x.transport_coefficients(A), (A,)), ("drude", lambda x: x.drude_factor(A), (A,)), ("hall", lambda x: x.conductivity_hall_tensor(A), (A,)),
         ("mu", lambda x: [x.mu, x.fermi_energy, x.bandgap], ())]
    ok = []
    for x in q:
        try:
            x[1](f())
            ok.append(x)
        except (NotImplementedError, ValueError, AssertionError, AttributeError, TypeError, IndexError) as e:
            c.event(f"not-applicable {x[0]}:{type(e).__name__}")
    # the surface samples may be degenerate: the gradient of the first and of the second derivative need not pick the same basis
    h = History(c, f, ok, tag="kint.", rtol=1e-5)
    base = h.baseline()
    dd = digest(d.bands_range, d.A)
    h.interleave(rng, f(), base, 8)
    c.ok(digest(d.bands_range, d.A) == dd, "density-unchanged")
    L = [base[i] for i, x in enumerate(ok) if x[0] == "transport"]
    if L:
        L = np.asarray(L[0])[:, 0] if np.ndim(L[0]) == 4 else np.asarray(L[0])
        a = digest(L)
        with contextlib.suppress(np.linalg.LinAlgError):
            r1 = [np.array(bulk.conductivity(L)), bulk.peltier(L), bulk.seebeck(L, 300.0), bulk.electronic_thermal_conductivity(L, 300.0)]
            r2 = [np.array(bulk.conductivity(L)), bulk.peltier(L), bulk.seebeck(L, 300.0), bulk.electronic_thermal_conductivity(L, 300.0)]
            c.ok(differ(r1, r2, 1e-12) is None, "repeatable:tensors")
        c.ok(digest(L) == a, "caller-values:tensors")


@workload(P, quick=80, thorough=800)
def free_electrons(c, rng):
    nb = rng.integers(-2, 3, size=(int(rng.integers(1, 12)), 3)).astype(float)
    f = lambda: bulk.FreeElectrons(nb, None if rng is None else min(len(nb), 5))
    k = rng.uniform(-.5, .5, size=(4, 3))
    q = [("call", lambda m: m(k), (k, nb)), ("grad", lambda m: m.bands_grad(k)[0], (k, nb)), ("hess", lambda m: m.bands_grad_hess(k)[2], (k, nb))]
    h = History(c, f, q, tag="free.")
    h.interleave(rng, f(), h.baseline(), 8)


# ------------------------------------------------------------------ paths, interpolation, crystals, functions

@workload(P, quick=80, thorough=800)
def paths(c, rng):
    p0 = [rng.uniform(-1, 1, 3) for _ in range(int(rng.integers(2, 5)))]
    Ns = [int(rng.integers(1, 9)) for _ in p0]
    pts = {"A": (rng.uniform(-1, 1, 3), "A"), "B": (rng.uniform(-1, 1, 3), "$B$")}
    use_names = bool(rng.random() < .4)

    def f():
        p = kpaths.KPath("A" if use_names else p0[0], points=pts) if use_names else kpaths.KPath(p0[0])
        for x, N in zip(p0[1:], Ns[1:]):
            p.to(x, N=N)
        if use_names:
            p.to("B")
        return p
    w = rng.normal(size=(3, 4))
    band = lambda k: np.sort(np.asarray(k) @ w, axis=-1)

    def plot(p, what):
        from matplotlib import pyplot as plt
        plt.figure()
        try:
            if what == "plot":
                p.plot(band)
            elif what == "labels":
                p.plot(band, label_bands="left")
            else:
                p.plot_comparison(band, lambda k: band(k) + 1)
            return len(plt.gca().lines)
        finally:
            plt.close("all")
    q = [("x", lambda p: p.x(), ()), ("sym_x", lambda p: p.sym_x(), ()), ("names", lambda p: list(p.sym_x_names()), ()), ("len", len, ()), ("iter", lambda p: list(p), tuple(p0)), ("item", lambda p: p[-1], ()),
         ("slice", lambda p: p[1:3], ()), ("dim", lambda p: p.dim(), ()), ("str", str, (pts, p0)), ("array", np.array, ()), ("plot", lambda p: plot(p, "plot"), ()),
         ("comparison", lambda p: plot(p, "cmp"), ())]
    ok = []
    for x in q:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x[1](f())
            ok.append(x)
        except (ValueError, AssertionError, NotImplementedError, TypeError, AttributeError) as e:
            c.event(f"not-applicable {x[0]}:{type(e).__name__}")
    h = History(c, f, ok, tag="path.")
    h.interleave(rng, f(), h.baseline(), 12)
    # extending a path leaves the points which were there, other paths and the dictionary alone
    a, b = f(), f()
    w0, before = h.fingerprint(a), digest(pts, p0)
    n = len(b)
    old = np.array(list(b))
    b.to(rng.uniform(-1, 1, 3), N=3)
    h.unchanged(a, w0, "other-path", "another path was extended")
    c.ok(np.array_equal(np.array(list(b))[:n], old) and digest(pts, p0) == before, "caller-values:to")


@workload(P, quick=60, thorough=600)
def interpolators(c, rng):
    dim = int(rng.integers(1, 4))
    n = 5
    ax = np.arange(n) / n - .4
    k = np.stack(np.meshgrid(*[ax] * dim, indexing="ij"), -1).reshape(-1, dim)
    k = k[rng.permutation(len(k))] + (rng.integers(-1, 2, size=(len(k), dim)) if rng.random() < .5 else 0)
    bands = rng.normal(size=(len(k), 2))
    x = rng.uniform(-2, 2, size=(5, dim))
    y = rng.uniform(-.3, .3, size=(5, dim))
    sym = Symmetry.none(dim)
    meth = str(rng.choice(["linear", "nearest"]))
    build = [("periodic", lambda _: kpaths.interpolate(k, bands, method=meth)(x), (k, bands, x)), ("sym", lambda _: kpaths.interpolate(k, bands, sym=sym, method=meth)(x), (k, bands, x, sym)),
             ("grid", lambda _: kpaths.interpolate(k, bands, method=meth, grid=(n,) * dim)(x), (k, bands, x)),
             ("unstructured", lambda _: kpaths.interpolate_unstructured(k, bands)(np.concatenate([k[:3], x])), (k, bands, x)),
             ("unstructured-sym", lambda _: kpaths.interpolate_unstructured(k, bands, sym=sym)(k[:3]), (k, bands, x))]
    h = History(c, lambda: None, build, tag="interp.")
    base = h.baseline()
    h.interleave(rng, None, base, 8)
    # the interpolator object itself
    I = kpaths.interpolate(k, bands, method=meth)
    U = kpaths.interpolate_unstructured(k, bands)
    r = [np.array(I(x)), np.array(U(k[:3]))]
    I(y), U(y)
    keep = np.array(k), np.array(bands)
    c.ok(differ([I(x), U(keep[0][:3])], r, 1e-12) is None, "repeatable:interpolator")


@workload(P, quick=80, thorough=800)
def functions(c, rng):
    """stateless helpers: repeatable, leave their arguments alone"""
    n, m, dim = int(rng.integers(1, 5)), int(rng.integers(1, 6)), 3
    H = herm(rng.normal(size=(m, n, n)) + 1j * rng.normal(size=(m, n, n)))
    X = rng.normal(size=(m, n, n))
    S = np.eye(n) + .1 * np.einsum("mij,mkj->mik", X, X)
    dH = herm(rng.normal(size=(m, dim, n, n)) + 1j * rng.normal(size=(m, dim, n, n)))
    dS = herm(rng.normal(size=(m, dim, n, n)) * .1)
    ddH = herm(rng.normal(size=(m, dim, dim, n, n)))
    ddH = ddH + np.swapaxes(ddH, 1, 2)
    ddS = ddH * .01
    bands = np.sort(rng.normal(size=(9, n + 2)), -1)
    ref = np.sort(rng.normal(size=(9, n + 1)), -1)
    w = rng.uniform(.1, 1, n + 1)
    A = lattice(rng)
    x = rng.normal(size=(5, 3))
    y = x[rng.permutation(5)]
    M = np.einsum("ij,kj->ik", x, x) + np.eye(5)
    b = rng.normal(size=5)
    x0 = rng.normal(size=5)
    es = np.sort(rng.normal(size=7))
    st = rng.uniform(0, 1, 7)
    L2, L3 = rng.normal(size=(3, 3)) + 3 * np.eye(3), rng.normal(size=(3, 3, 3))
    nbr = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0.]])
    e3c = rng.normal(size=(8, 6))
    q = [("geigh", lambda _: linalg.geigh(H, S)[0], (H, S)), ("geigvalsh", lambda _: linalg.geigvalsh(H, S), (H, S)), ("eigh_grad", lambda _: linalg.eigh_grad(H, dH)[:2], (H, dH)),
         ("geigh_grad", lambda _: linalg.geigh_grad(H, S, dH, dS)[:2], (H, S, dH, dS)), ("eigh_hess", lambda _: linalg.eigh_grad_hess(H, dH, ddH), (H, dH, ddH)),
         ("geigh_hess", lambda _: linalg.geigh_grad_hess(H, S, dH, dS, ddH, ddS), (H, S, dH, dS, ddH, ddS)), ("direct_sum", lambda _: linalg.direct_sum(H[0], S[0], H[0]), (H, S)), ("kron", lambda _: linalg.kron(H[0], S[0]), (H, S)),
         ("merge", lambda _: linalg.merge_axes(dH), (dH,)), ("pointcloud", lambda _: linalg.pointcloud_distance(x, y), (x, y)), ("sphere", lambda _: linalg.lattice_in_sphere(A, 3.0), (A,)),
         ("cg", lambda _: linalg.conjugate_gradient_solve(lambda v: M @ v, b, x0), (M, b, x0)), ("cg0", lambda _: linalg.conjugate_gradient_solve(lambda v: M @ v, b), (M, b)),
         ("error", lambda _: loss.model_error(bands, ref, w, 1), (bands, ref, w)), ("loss", lambda _: loss.model_loss(bands, ref, w, 0), (bands, ref, w)), ("window", lambda _: loss.model_windowed_loss(bands, ref, -1., 1., True), (bands, ref)),
         ("window2", lambda _: loss.model_windowed_loss(bands, ref, -1., 1.), (bands, ref)), ("hist", lambda _: loss.model_error_hist(bands, ref, 7), (bands, ref)), ("hist2", lambda _: loss.model_error_hist(bands, ref, 7, True), (bands, ref)),
         ("convolve", lambda _: dosm.convolve_df(.1, es, st, 3.0), (es, st)), ("convolve2", lambda _: dosm.convolve_ddf(.1, es, st, 3.0), (es, st)),
         ("hall", lambda _: bulk.hall_coefficients(L2, L3), (L2, L3)), ("neighbor", lambda _: [symm.neighbor_function(nbr)(np.array(v)) for v in ((-1., 0, 0), (0, 1., 0))], (nbr,)),
         ("cubes", lambda _: smearing.cube_cut_volume(*smear_args(rng_s(3), 5)), ()), ("naive", lambda _: [dosm.naive_fermi_energy(bands, 2), dosm.naive_energy(bands, .1, 300.0)], (bands,)),
         ("tetra", lambda _: smearing.cube_tetra_cut_volume(e3c), (e3c,))]
    ok = []
    for v in q:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                v[1](None)
            ok.append(v)
        except (ValueError, AssertionError, NotImplementedError, TypeError, IndexError, NameError) as e:
            c.event(f"not-applicable {v[0]}:{type(e).__name__}")
    h = History(c, lambda: None, ok, tag="fn.", rtol=1e-7)
    base = h.baseline()
    h.interleave(rng, None, base, 15)


def rng_s(seed):
    return np.random.default_rng(seed)


def smear_args(r, n):
    g = np.abs(r.normal(size=(3, n)))
    return (r.normal(size=n), *np.sort(g, axis=0), np.linalg.norm(g, axis=0))


@workload(P, quick=40, thorough=400)
def crystals(c, rng):
    run = Run(rng)
    with scratch():
        run.write()

        def f():
            q = qe.QECrystal(run.name, np.array(run.A / 1.8897261), [np.array(x) for x in run.basis], list(run.types), 40.0)
            return q
        A = np.array(run.A)
        q = [("read", lambda x: [np.asarray(v) for v in x.read_bands_crystal()], ()), ("mass", lambda x: x.mass_density(), ()), ("vectors", lambda x: x.lattice_vectors_in_m(), ()), ("available", lambda x: x.read_available(), ()),
             ("state", lambda x: [list(x.types), [np.array(b) for b in x.basis], x.kinetic_energy_cutoff], ())]
        ok = []
        for v in q:
            try:
                v[1](f())
                ok.append(v)
            except (ValueError, AssertionError, NotImplementedError, TypeError, IndexError, NameError, KeyError, FileNotFoundError) as e:
                c.event(f"not-applicable {v[0]}:{type(e).__name__}")
        # reading is documented to take over the lattice of the run: read first
        def g():
            x = f()
            x.read_bands_crystal()
            return x
        h = History(c, g, ok, tag="qe.", rtol=1e-12)
        base = h.baseline()
        h.interleave(rng, g(), base, 10)
        # crystals do not share what they were built from
        basis, types = [list(map(float, b)) for b in run.basis], list(run.types)
        A1 = np.array(run.A)
        x1 = qe.QECrystal(run.name, A1, basis, types, 40.0)
        a = digest(A1, basis, types)
        x1.scale_to_density(5000.0)
        c.ok(digest(A1, basis, types) == a, "caller-values:crystal")


@workload(P, quick=60, thorough=600)
def loggers(c, rng):
    """loggers of different runs are independent; print_error and optimise write only to the one they are given"""
    f, nb, dim, n, sym = bsm_factory(rng)
    m = f()
    k = rng.uniform(-.5, .5, size=(8, dim))
    ref = np.sort(rng.normal(size=(8, n)), -1)
    w = np.ones(n)
    a, b = logger.OptimisationLogger(print_loss=False, verbose=False), logger.OptimisationLogger(print_loss=False, verbose=False)
    d = digest(k, ref, w, b.stream, b.iterations, b.loss)
    with contextlib.redirect_stdout(io.StringIO()):
        m.copy().optimize(k, np.ones(8), ref, w, 0, 2, log=a)
    c.ok(digest(k, ref, w, b.stream, b.iterations, b.loss) == d, "logger-independent")
    c.ok(len(a.stream) > 0, "logger-used")
    fresh = logger.OptimisationLogger()
    c.ok(fresh.stream == [] and fresh.loss == [] and fresh.iteration_count() == -1, "logger-fresh")
    c.key(k)


@workload(P, quick=60, thorough=600)
def legacy_models(c, rng):
    """TightBindingModel: queries leave it alone, a copy is equal and independent"""
    from .c01 import legacy_model
    m, nb, H, params, given, inv = legacy_model(rng)
    k = gen_k(rng, nb.shape[1])
    k2 = k.copy()
    state = lambda x: [np.array(x.params), np.array(x.neighbors), np.array(x.unitary_repr.U), x.unitary_repr.inv_split, np.array(x.sym.S)]
    s0, e0 = state(m), np.array(m.bands(k))
    ref = np.max(np.abs(e0)) + 1e-9
    for q in rng.choice(["f", "df", "ddf", "bands", "bands_grad", "bands_grad_hess", "copy", "loss"], 6):
        getattr(m, q)(*{"copy": (), "loss": (k, e0, np.ones(e0.shape[1]), 0)}.get(str(q), (k,)))
    c.ok(differ(state(m), s0, 0) is None and np.array_equal(k, k2), "legacy:queries-change-nothing", differ(state(m), s0, 0))
    t = m.copy()
    c.ok(type(t) is type(m) and differ(state(t), s0, 0) is None, "legacy:copy-equals-original", differ(state(t), s0, 0))
    c.close(t.bands(k), e0, "legacy:copy-bands", rtol=0, atol=1e-12 * ref)
    a, b = (m, t) if rng.random() < .5 else (t, m)
    a.params += .3
    a.params[0] *= 2
    c.ok(differ(state(b), s0, 0) is None, "legacy:copy-independent", differ(state(b), s0, 0))
    c.close(b.bands(k), e0, "legacy:copy-independent-bands", rtol=0, atol=1e-12 * ref)
    c.key(nb, H, k)
