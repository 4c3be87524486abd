"""C05 persistence: written files are parsed by an independent reader and reloaded; parameter extraction round trips."""
import json
import os
import numpy as np
from .core import *
from .models import *
from .c01 import group

P = "C05"


def match_models(c, nb1, H1, nb2, H2, tag, scale, rtol=1e-12, exact=False):
    """same neighbour set up to sign and order with the same matrices

    exact: nothing has been transformed, so each real and imaginary part has to survive on its own"""
    nb1, nb2 = np.asarray(nb1), np.asarray(nb2)
    c.ok(nb1.shape == nb2.shape and np.shape(H1) == np.shape(H2), f"{tag}:shape", f"{nb1.shape} {nb2.shape} {np.shape(H1)} {np.shape(H2)}")
    used = set()
    for r, h in zip(nb1, H1):
        d, e = np.abs(nb2 - r).max(-1), np.abs(nb2 + r).max(-1)
        if d.min() <= 1e-12 * (1 + np.abs(nb1).max()):
            j, hh = int(d.argmin()), H2[int(d.argmin())]
        else:
            j, hh = int(e.argmin()), np.conj(H2[int(e.argmin())].T)
            c.ok(e.min() <= 1e-12 * (1 + np.abs(nb1).max()), f"{tag}:neighbor-kept", r=r, got=nb2)
        c.ok(j not in used, f"{tag}:neighbor-used-once", r=r)
        used.add(j)
        c.close(hh, h, f"{tag}:hopping", rtol=rtol, scale=scale, atol=2e-14, r=r)
        if exact:
            a, b = np.array(hh, complex).view(float), np.array(h, complex).view(float)
            bad = np.abs(a - b) > 2e-14 + 1e-13 * np.abs(b)
            c.ok(not np.any(bad), f"{tag}:hopping-part", r=r, got=a[bad], want=b[bad])


def gen(rng):
    nb, H, kind = gen_model(rng, nmax=6, count=int(rng.integers(1, 30)))
    dim = len(nb[0])
    if rng.random() < 0.3:
        nb = nb @ (np.eye(dim) * 2 + rng.standard_normal((dim, dim)) * 0.4)
    if rng.random() < 0.5:  # any order, zero first
        p = np.concatenate([[0], 1 + rng.permutation(len(nb) - 1)])
        nb, H = nb[p], H[p]
    return nb, H, kind, dim


@workload(P, quick=250, thorough=5000)
def asym_json(c, rng):
    nb, H, kind, dim = gen(rng)
    ref = Ref.of(nb, H)
    m = asym(nb, H)
    k = gen_k(rng, dim, 4)
    name = str(rng.choice(["model.json", "m.x.json", "plain.dat"]))
    with scratch():
        m.save(name, **({} if name.endswith("json") else dict(format="json")))
        raw = json.load(open(name))
        Hraw = np.array([[complex(*v) for v in h["data"]] for h in raw["params"]]).reshape(len(nb), *H[0].shape)
        c.ok(raw["band_count"] == H.shape[-1], "json:band-count")
        match_models(c, nb, H, np.array(raw["neighbors"]), Hraw, "json-file", ref.scale(), exact=True)
        fmt = {} if name.endswith("json") else dict(format="json")
        a = AsymTightBindingModel.load(name, **fmt)
        cr, ex = MODES[int(rng.integers(4))]
        b = BandStructureModel.load(name, cos_reduced=cr, exp=ex, **fmt)
        # a second generation is identical to the first
        a.save("again.json")
        a2 = AsymTightBindingModel.load("again.json")
    match_models(c, nb, H, a.H.neighbors, a.params_complex(), "json-asym", ref.scale(), exact=True)
    match_models(c, nb, H, b.neighbors, b.params_complex(), "json-bsm", ref.scale(), 1e-11)
    c.close(a.bands(k), ref.bands(k), "json-asym:bands", rtol=1e-9, scale=ref.scale())
    c.close(b.bands(k), ref.bands(k), "json-bsm:bands", rtol=1e-9, scale=ref.scale())
    match_models(c, a.H.neighbors, a.params_complex(), a2.H.neighbors, a2.params_complex(), "json-second-generation", ref.scale(), exact=True)
    c.close(m.bands(k), ref.bands(k), "json:saved-model-unchanged", rtol=1e-9, scale=ref.scale())
    c.ok(type(b.f(k)) is np.ndarray and b.cos_reduced == cr and b.exp == ex, "json-bsm:mode")
    c.key(nb, H)
    c.note(kind=kind, dim=dim)


@workload(P, quick=250, thorough=5000)
def bsm_json_and_repr(c, rng):
    nb, H, kind, dim = gen(rng)
    ref = Ref.of(nb, H)
    mode = MODES[int(rng.integers(4))]
    m = bsm(nb, H, *mode)
    k = gen_k(rng, dim, 4)
    fmt = str(rng.choice(["json", "repr", "python", "repr"]))
    with scratch():
        if fmt == "json":
            m.save("x.json")
            cr, ex = MODES[int(rng.integers(4))]
            b = BandStructureModel.load("x.json", cos_reduced=cr, exp=ex)
            a = AsymTightBindingModel.load("x.json")
        else:
            f = "x.repr" if fmt == "repr" else "x.txt"
            kw = {} if fmt == "repr" else dict(format="python")
            m.save(f, **kw)
            b = BandStructureModel.load(f, **kw)
            a = AsymTightBindingModel.load(f, **kw)
    match_models(c, nb, H, b.neighbors, b.params_complex(), f"{fmt}-bsm", ref.scale(), 1e-11)
    match_models(c, nb, H, a.H.neighbors, a.params_complex(), f"{fmt}-asym", ref.scale(), 1e-11)
    c.close(b.bands(k), ref.bands(k), f"{fmt}-bsm:bands", rtol=1e-9, scale=ref.scale())
    c.close(a.bands(k), ref.bands(k), f"{fmt}-asym:bands", rtol=1e-9, scale=ref.scale())
    c.close(m.bands(k), ref.bands(k), "saved-model-unchanged", rtol=1e-9, scale=ref.scale())
    c.key(nb, H, fmt)
    c.note(kind=kind, mode=mode, fmt=fmt)


@workload(P, quick=120, thorough=2500)
def symmetric_repr(c, rng):
    """coefficient symmetries survive the python format"""
    dim = int(rng.integers(1, 4))
    sym = group(rng, dim)
    nb = half_space(dim, 2, rng, count=int(rng.integers(1, 5)))
    H, kind = gen_params(rng, len(nb), int(rng.integers(1, 4)))
    if sym.inversion:
        H = herm(H)
    m = bsm(nb, H, *MODES[int(rng.integers(4))], sym)
    sc = np.sum(np.abs(H)) * len(sym) * 2
    k = gen_k(rng, dim, 4)
    before = m.bands(k)
    with scratch():
        m.save("x.repr")
        b = BandStructureModel.load("x.repr")
    match_models(c, nb, H, b.neighbors, b.params_complex(), "repr-sym", sc, 1e-11)
    c.ok(b.sym.inversion == sym.inversion and len(b.sym) == len(sym), "repr-sym:group")
    c.close(b.bands(k), before, "repr-sym:bands", rtol=1e-9, scale=sc)
    c.close(m.bands(k), before, "repr-sym:saved-model-unchanged", rtol=1e-12, scale=sc)
    c.key(nb, H)
    c.note(order=len(sym), inversion=sym.inversion)


@workload(P, quick=2, thorough=12)
def large_repr(c, rng):
    """more than 100000 coefficients"""
    nb = half_space(3, 4, rng, count=int(rng.integers(130, 200)))
    n = int(rng.integers(26, 30))
    H = rng.standard_normal((len(nb), n, n)) + 1j * rng.standard_normal((len(nb), n, n))
    H[0] = herm(H[0])
    m = bsm(nb, H, False, True)
    with scratch():
        m.save("big.repr")
        b = BandStructureModel.load("big.repr")
    match_models(c, nb, H, b.neighbors, b.params_complex(), "repr-large", 1e4, 1e-12)
    c.key(H)


@workload(P, quick=300, thorough=6000)
def params_round_trip(c, rng):
    dim = int(rng.integers(1, 4))
    sym = none(dim) if rng.random() < 0.5 else group(rng, dim)
    nb = half_space(dim, 2, rng, count=int(rng.integers(1, 7)))
    H, kind = gen_params(rng, len(nb), int(rng.integers(1, 4)))
    if sym.inversion:
        H = herm(H)
    sc = np.sum(np.abs(H)) * len(sym) * 2
    k = gen_k(rng, dim, 4)
    perm = np.concatenate([[0], 1 + rng.permutation(len(nb) - 1)])
    for cr, ex in MODES:
        tag = f"{'cosred' if cr else 'plain'}-{'exp' if ex else 'cos'}"
        m = bsm(nb, H, cr, ex, sym)
        before = m.bands(k)
        p = m.params_complex()
        c.close(p, H, f"params-get-set:{tag}", rtol=1e-11, scale=sc)
        m2 = m.copy()
        m2.randomize(0.3)
        m2.set_params_complex(p)
        c.close(m2.bands(k), before, f"params-set-get-bands:{tag}", rtol=1e-10, scale=sc)
        c.close(m2.params, m.params, f"params-restored:{tag}", rtol=1e-11, scale=sc)
        c.close(m.bands(k), before, f"params-original-unchanged:{tag}", rtol=1e-12, scale=sc)
        mp = bsm(nb[perm], H[perm], cr, ex, sym)
        c.close(mp.bands(k), before, f"params-neighbor-order:{tag}", rtol=1e-10, scale=sc)
        c.close(mp.params_complex(), H[perm], f"params-neighbor-order-get:{tag}", rtol=1e-11, scale=sc)
        # a raw model: extraction describes the bands that the raw parameters give
        r = bsm(nb, H, cr, ex, sym)
        r.params = r.params * (1.3 if not cr else 0.7)
        m3 = bsm(nb, r.params_complex(), *MODES[int(rng.integers(4))], sym)
        c.close(m3.bands(k), r.bands(k), f"params-across-modes:{tag}", rtol=1e-10, scale=sc)
    a = asym(nb, H)
    a2 = AsymTightBindingModel.new(nb, H.shape[-1])
    a2.set_from_complex(a.params_complex())
    c.close(a2.bands(k), Ref.of(nb, H).bands(k), "params-asym", rtol=1e-9, scale=sc)
    c.key(nb, H)
    c.note(kind=kind, order=len(sym))


@workload(P, quick=8, thorough=60)
def shipped_models(c, rng):
    """files in the repository survive a load/save/load cycle in both classes and formats"""
    path = "/repo/examples/cu_asym_4.json"
    a = AsymTightBindingModel.load(path)
    k = gen_k(rng, 3, 4)
    b = BandStructureModel.load(path, cos_reduced=bool(rng.random() < .5), exp=bool(rng.random() < .5))
    sc = np.abs(a.bands(k)).max()
    with scratch():
        a.save("a.json")
        b.save("b.json")
        b.save("b.repr")
        for n, L in (("a.json", AsymTightBindingModel.load), ("b.json", AsymTightBindingModel.load), ("a.json", BandStructureModel.load), ("b.repr", BandStructureModel.load), ("b.repr", AsymTightBindingModel.load)):
            c.close(L(n).bands(k), a.bands(k), f"shipped:{n}", rtol=1e-8, scale=sc)
    c.key(k)


@workload(P, quick=10, thorough=60)
def overlap_json(c, rng):
    """orthogonality overlap S of the asym model in the json format"""
    nb, H, kind = gen_model(rng, 2, 2, kind="generic")
    S = gen_overlap(rng, nb, 2, 0.6)
    m = asym(nb, H, nb, S)
    k = gen_k(rng, 2, 4)
    with scratch():
        m.save("s.json")
        a = AsymTightBindingModel.load("s.json")
    sc = Ref.of(nb, H).scale()
    got, exp = a.bands(k), m.bands(k)
    # the signature of the recorded finding: H is intact, S silently became the identity
    dropped = np.abs(got - Ref.of(nb, H).bands(k)).max() < 1e-9 * sc
    c.close(got, exp, "json-drops-overlap" if dropped else "overlap-json-bands", rtol=1e-9, scale=sc * 3)
    c.key(nb, H)


@workload(P, quick=10, thorough=60)
def symmetric_json(c, rng):
    sym = [Symmetry.cubic(True), Symmetry.mirror3(False)][int(rng.integers(2))]
    nb = half_space(3, 2, rng, count=3)
    H = herm(gen_params(rng, len(nb), 2, "generic")[0])
    m = bsm(nb, H, False, False, sym)
    k = gen_k(rng, 3, 4)
    with scratch():
        m.save("s.json")
        b = BandStructureModel.load("s.json")
    sc = np.sum(np.abs(H)) * 48
    got, exp = b.bands(k), m.bands(k)
    # the signature of the recorded finding: the summed coefficient functions are replaced by single exponentials
    dropped = np.abs(got - Ref.of(nb, H).bands(k)).max() < 1e-9 * sc
    c.close(got, exp, "json-drops-coefficient-symmetry" if dropped else "symmetric-json-bands", rtol=1e-9, scale=sc)
    c.key(nb, H)


@workload(P, quick=120, thorough=2500)
def foreign_json(c, rng):
    """json files of another writer: any order of the vectors, real or complex numbers, extra white space and keys in any order"""
    nb, H, kind, dim = gen(rng)
    real = bool(rng.random() < .4)
    if real:
        H = np.real(H)
    n = H.shape[-1]
    ref = Ref.of(nb, H)
    order = rng.permutation(len(nb))
    if real:
        data = [[float(v) for v in h.flat] for h in H[order]]
    else:
        data = [[[float(v.real), float(v.imag)] for v in np.asarray(h, complex).flat] for h in H[order]]
    d = [("band_count", n), ("params", [dict(v=1, dim=[n, n], data=x) for x in data]), ("neighbors", [[int(x) if float(x).is_integer() and rng.random() < .5 else float(x) for x in r] for r in nb[order]])]
    d = dict([d[i] for i in rng.permutation(3)])
    k = gen_k(rng, dim, 4)
    with scratch():
        with open("x.json", "w") as f:
            json.dump(d, f, indent=None if rng.random() < .5 else 1)
        a = AsymTightBindingModel.load("x.json")
        cr, ex = MODES[int(rng.integers(4))]
        b = BandStructureModel.load("x.json", cos_reduced=cr, exp=ex)
    match_models(c, nb, H, a.H.neighbors, a.params_complex(), "foreign-asym", ref.scale(), exact=True)
    match_models(c, nb, H, b.neighbors, b.params_complex(), "foreign-bsm", ref.scale(), 1e-11)
    c.close(a.bands(k), ref.bands(k), "foreign-asym:bands", rtol=1e-9, scale=ref.scale())
    c.close(b.bands(k), ref.bands(k), "foreign-bsm:bands", rtol=1e-9, scale=ref.scale())
    c.key(nb, H, real)


@workload("C05", quick=80, thorough=1000)
def legacy_parameters(c, rng):
    """complex parameters of the legacy model: what is extracted restores the model, into itself and into another one with other parameters"""
    from .c01 import legacy_model
    m, nb, H, params, given, inv = legacy_model(rng)
    k = gen_k(rng, nb.shape[1])
    f, before = m.f(k), m.params.copy()
    sc = np.abs(f).max() + np.abs(H).max()
    x = m.params_complex()
    c.close(x, H, "legacy-hoppings", rtol=1e-9, scale=sc)
    c.close(m.params, before, "legacy-extraction-leaves-the-model-alone", rtol=1e-12)
    keep = x.copy()
    o = m.copy()
    o.params = rng.standard_normal(o.params.shape) + 0j
    for t in (m, o):
        t.set_from_complex(x)
        c.close(t.f(k), f, "legacy-hoppings-restored", rtol=1e-9, scale=sc)
        c.close(t.params, before, "legacy-parameters-restored", rtol=1e-9, scale=sc)
        c.close(t.params_complex(), H, "legacy-hoppings-read-back", rtol=1e-9, scale=sc)
    c.ok(np.array_equal(x, keep), "legacy-hoppings-unchanged")
    # in another order of the neighbours
    p = np.concatenate([[0], 1 + rng.permutation(len(nb) - 1)]).astype(int)
    o = type(m)(m.unitary_repr, np.asarray(nb)[p], None)
    o.set_from_complex(x[p])
    c.close(o.f(k), f, "legacy-order-free", rtol=1e-9, scale=sc)
    c.key(nb, H)
