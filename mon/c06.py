"""C06 Wannier90 import: files written by an independent generator; the loaded Hamiltonian is compared with the file's own Fourier sum."""
import itertools
import numpy as np
from .core import *
from .models import *
from tight_binding_redweasel import wannier90_tb_format as w90

P = "C06"


def gen_file_model(rng, n=None):
    n = n or int(rng.integers(1, 7))
    pts = [p for p in itertools.product(*[range(-m, m + 1) for m in rng.integers(0, 3, size=3)])]
    pos = [p for p in pts if p > (0, 0, 0)]
    keep = [pos[i] for i in rng.permutation(len(pos))[:int(rng.integers(0, 24))]]
    blocks = {(0, 0, 0): herm(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))}
    deg = {(0, 0, 0): int(rng.integers(1, 4)) if rng.random() < 0.3 else 1}
    rmat = {}
    for p in keep:
        blocks[p] = (rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))) * 10.0 ** rng.uniform(-3, 0)
        deg[p] = int(rng.integers(1, 7)) if rng.random() < 0.6 else 1
    for p in list(blocks):
        q = tuple(-x for x in p)
        if q != p:
            blocks[q] = blocks[p].conj().T
            deg[q] = deg[p]
    for p in list(blocks):
        q = tuple(-x for x in p)
        if q in rmat:
            rmat[p] = np.conj(np.swapaxes(rmat[q], 0, 1))
        else:
            r = rng.standard_normal((n, n, 3)) + 1j * rng.standard_normal((n, n, 3))
            rmat[p] = (r + np.conj(np.swapaxes(r, 0, 1))) / 2 if p == q else r
    # the file stores rounded numbers: these are what it defines
    digits = int(rng.choice([6, 10, 14]))
    rd = lambda a: np.round(a.real, digits) + 1j * np.round(a.imag, digits)
    blocks = {p: rd(h) for p, h in blocks.items()}
    rmat = {p: rd(h) for p, h in rmat.items()}
    order = list(blocks)
    mode = str(rng.choice(["sorted", "random", "reverse"]))
    order = sorted(order) if mode == "sorted" else [order[i] for i in rng.permutation(len(order))] if mode == "random" else sorted(order)[::-1]
    return n, blocks, deg, rmat, order, digits


def deg_lines(order, deg):
    d = [deg[p] for p in order]
    return "".join("".join(f"{x:5d}" for x in d[i:i + 15]) + "\n" for i in range(0, len(d), 15))


def elements(rng, n, mode):
    ij = [(i, j) for j in range(n) for i in range(n)]
    if mode == "row":
        ij = [(i, j) for i in range(n) for j in range(n)]
    if mode == "random":
        ij = [ij[x] for x in rng.permutation(len(ij))]
    return ij


def write_hr(rng, name, n, blocks, deg, order, digits):
    mode = str(rng.choice(["col", "row", "random"]))
    lines = [f"{p[0]:5d}{p[1]:5d}{p[2]:5d}{i+1:5d}{j+1:5d} {blocks[p][i, j].real:.{digits}f} {blocks[p][i, j].imag:.{digits}f}\n" for p in order for i, j in elements(rng, n, mode)]
    if rng.random() < 0.15:  # lines of different blocks interleaved, first appearance in block order
        first = lines[::n * n]
        rest = [x for i, x in enumerate(lines) if i % (n * n)]
        lines = first + [rest[i] for i in rng.permutation(len(rest))]
    with open(name, "w") as f:
        f.write(" written on 27Mar2024 at 13:19:51 \n")
        f.write(f"          {n}\n        {len(order)}\n")
        f.write(deg_lines(order, deg))
        f.writelines(lines)
        if rng.random() < 0.2:
            f.write("\n")


def write_tb(rng, name, n, blocks, deg, rmat, order, digits, A):
    mode = str(rng.choice(["col", "row", "random"]))
    with open(name, "w") as f:
        f.write(" written on 27Mar2024 at 13:19:51 \n")
        for row in A:
            f.write("  ".join(f"{x:.12f}" for x in row) + "\n")
        f.write(f"          {n}\n        {len(order)}\n")
        f.write(deg_lines(order, deg))
        for p in order:
            f.write(f"\n{p[0]:5d}{p[1]:5d}{p[2]:5d}\n")
            for i, j in elements(rng, n, mode):
                f.write(f"{i+1:5d}{j+1:5d}   {blocks[p][i, j].real:.{digits}E} {blocks[p][i, j].imag:.{digits}E}\n")
        order2 = order if rng.random() < 0.6 else [order[i] for i in rng.permutation(len(order))]
        for p in order2:
            f.write(f"\n{p[0]:5d}{p[1]:5d}{p[2]:5d}\n")
            for i, j in elements(rng, n, mode):
                f.write(f"{i+1:5d}{j+1:5d}   " + " ".join(f"{v.real:.{digits}E} {v.imag:.{digits}E}" for v in rmat[p][i, j]) + "\n")
        if rng.random() < 0.3:
            f.write("\n")


def file_ref(blocks, deg):
    return Ref(list(blocks), [blocks[p] / deg[p] for p in blocks])


def check_lists(c, nb, H, blocks, deg, tag, tol, rm=None, rmat=None):
    c.ok(np.linalg.norm(nb[0]) == 0, f"{tag}:origin-first")
    seen = set()
    for i, r in enumerate(nb):
        p = tuple(int(round(x)) for x in r)
        c.ok(p in blocks, f"{tag}:vector-from-file", r=r)
        q = tuple(-x for x in p)
        c.ok(p not in seen and q not in seen, f"{tag}:vector-used-once", r=r)
        seen.add(p)
        c.close(H[i], blocks[p] / deg[p], f"{tag}:hopping-over-degeneracy", atol=tol, rtol=1e-12, r=r)
        if rm is not None:
            c.close(rm[i], rmat[p] / deg[p], f"{tag}:position-matrix", atol=tol, rtol=1e-12, r=r)
    c.ok(all(p in seen or tuple(-x for x in p) in seen for p in blocks), f"{tag}:every-vector-used")


@workload(P, quick=200, thorough=4000)
def hr_files(c, rng):
    n, blocks, deg, rmat, order, digits = gen_file_model(rng)
    ref = file_ref(blocks, deg)
    tol = 3 * 10.0 ** -digits
    k = gen_k(rng, 3, 4)
    name = str(rng.choice(["cu_hr.dat", "x.hr.dat", "some.txt"]))
    kw = dict(format="wannier90hr") if name.endswith("txt") else {}
    with scratch():
        write_hr(rng, name, n, blocks, deg, order, digits)
        a = AsymTightBindingModel.load(name, **kw)
        cr, ex = MODES[int(rng.integers(4))]
        b = BandStructureModel.load(name, cos_reduced=cr, exp=ex, **kw)
        nb, H = w90.load_hr(name)
    check_lists(c, nb, H, blocks, deg, "hr", tol)
    sc = np.sum(np.abs(ref.Hs))
    at = tol * len(blocks) * n
    c.close(a.H.f(k), ref.H(k), "hr:asym-hamiltonian", rtol=1e-9, atol=at, scale=sc, k=k)
    c.close(a.bands(k), np.linalg.eigvalsh(herm(ref.H(k))), "hr:asym-bands", rtol=1e-9, atol=at, scale=sc)
    c.close(b.f(k), ref.H(k), "hr:bsm-hamiltonian", rtol=1e-9, atol=at, scale=sc, k=k)
    c.close(b.bands(k), np.linalg.eigvalsh(herm(ref.H(k))), "hr:bsm-bands", rtol=1e-9, atol=at, scale=sc)
    c.ok(a.band_count() == n and b.band_count() == n, "hr:band-count")
    c.key(order, deg, n, digits)
    c.note(n=n, vectors=len(order), max_degeneracy=max(deg.values()))


@workload(P, quick=200, thorough=4000)
def tb_files(c, rng):
    n, blocks, deg, rmat, order, digits = gen_file_model(rng)
    A = np.round(rng.standard_normal((3, 3)) * 2 + 4 * np.eye(3), 12)
    ref = file_ref(blocks, deg)
    tol = 3 * 10.0 ** -digits
    k = gen_k(rng, 3, 4)
    name = str(rng.choice(["cu_tb.dat", "x.tb.dat", "some.txt"]))
    kw = dict(format="wannier90tb") if name.endswith("txt") else {}
    with scratch():
        write_tb(rng, name, n, blocks, deg, rmat, order, digits, A)
        a = AsymTightBindingModel.load(name, **kw)
        cr, ex = MODES[int(rng.integers(4))]
        b = BandStructureModel.load(name, cos_reduced=cr, exp=ex, **kw)
        nb, H, rm, dg, Af = w90.load_tb(name)
    check_lists(c, nb, H, blocks, deg, "tb", tol, rm, rmat)
    c.close(Af, A, "tb:lattice-vectors", atol=1e-11)
    c.ok(list(dg) == [deg[p] for p in order], "tb:degeneracies", got=dg)
    sc = np.sum(np.abs(ref.Hs))
    at = tol * len(blocks) * n
    c.close(a.H.f(k), ref.H(k), "tb:asym-hamiltonian", rtol=1e-9, atol=at, scale=sc, k=k)
    c.close(b.f(k), ref.H(k), "tb:bsm-hamiltonian", rtol=1e-9, atol=at, scale=sc, k=k)
    c.close(a.bands(k), np.linalg.eigvalsh(herm(ref.H(k))), "tb:asym-bands", rtol=1e-9, atol=at, scale=sc)
    c.close(b.bands(k), np.linalg.eigvalsh(herm(ref.H(k))), "tb:bsm-bands", rtol=1e-9, atol=at, scale=sc)
    c.key(order, deg, n, digits)
    c.note(n=n, vectors=len(order))


@workload(P, quick=60, thorough=800)
def hr_and_tb_agree(c, rng):
    """the same Hamiltonian written in both formats, with shuffled lines, gives the same bands"""
    n, blocks, deg, rmat, order, digits = gen_file_model(rng)
    k = gen_k(rng, 3, 4)
    with scratch():
        write_hr(rng, "a_hr.dat", n, blocks, deg, order, 14)
        o2 = [order[i] for i in rng.permutation(len(order))]
        write_tb(rng, "a_tb.dat", n, blocks, deg, rmat, o2, 14, np.eye(3))
        a, b = AsymTightBindingModel.load("a_hr.dat"), AsymTightBindingModel.load("a_tb.dat")
    sc = sum(np.abs(h).sum() for h in blocks.values())
    c.close(a.bands(k), b.bands(k), "hr-equals-tb", rtol=1e-10, scale=sc)
    c.key(order, n)


@workload(P, quick=6, thorough=20)
def many_vectors(c, rng):
    """as many vectors as a real calculation (15 degeneracies per line, several lines) and many orbitals"""
    n = int(rng.integers(7, 13))
    m = [int(x) for x in rng.integers(2, 4, size=3)]
    pts = list(itertools.product(*[range(-x, x + 1) for x in m]))
    blocks, deg = {}, {}
    for p in pts:
        q = tuple(-x for x in p)
        if q in blocks:
            blocks[p], deg[p] = blocks[q].conj().T, deg[q]
        else:
            h = np.round(rng.standard_normal((n, n)), 6) + 1j * np.round(rng.standard_normal((n, n)), 6)
            if p == q:
                h = np.round(herm(h).real, 6) + 1j * np.round(herm(h).imag, 6)
                h = np.tril(h, -1) + np.tril(h, -1).conj().T + np.diag(np.diag(h).real)
            blocks[p] = h
            deg[p] = 2 ** sum(abs(x) == y for x, y in zip(p, m))
    ref = file_ref(blocks, deg)
    k = gen_k(rng, 3, 3)
    with scratch():
        write_hr(rng, "big_hr.dat", n, blocks, deg, pts, 6)
        a = AsymTightBindingModel.load("big_hr.dat")
        nb, H = w90.load_hr("big_hr.dat")
    check_lists(c, nb, H, blocks, deg, "hr-big", 1e-9)
    c.close(a.bands(k), ref.bands(k), "hr-big:bands", rtol=1e-9, scale=np.sum(np.abs(ref.Hs)))
    c.key(n, m)
