"""C21: Quantum Espresso results are read as what the files say (synthetic runs with known contents)."""
import os
import warnings
import numpy as np
from .core import workload, Skip, scratch, quiet
from .qegen import Run, BOHR, HA, RY, KB_RY, ELEMENTS, record, num, vec, rotation
from tight_binding_redweasel import Symmetry, kpaths
from tight_binding_redweasel import qespresso_interface as qe
warnings.simplefilter("ignore")


def crystal(run, unit="angstrom"):
    return qe.QECrystal(run.name, np.eye(3), run.basis, run.types, 40.0, unit=unit)


@workload("C21", quick=250, thorough=3000)
def bands(c, rng):
    run = Run(rng)
    unit = str(rng.choice(["angstrom", "bohr"]))
    with scratch():
        text = run.write()
        if rng.random() < .3:
            incomplete = True
            os.rename(f"qe-data/{run.name}.xml", f"qe-data/{run.name}.save/data-file-schema.xml")
        else:
            incomplete = False
        q = crystal(run, unit)
        c.ok(q.read_available() != incomplete, "available")
        res = q.read_bands_crystal(incomplete=True) if incomplete else q.read_bands_crystal()
        again = q.read_bands_crystal(incomplete=incomplete)
    c.key(text)
    k, b, S, ef = res
    c.close(k, run.k, "k-crystal", atol=1e-9, rtol=1e-9)
    c.close(b, run.bands * HA, "energies-eV", rtol=2e-7)
    c.close(np.array(ef), np.array(run.fermi * HA), "fermi-energy-eV", rtol=2e-7)
    c.close(q.A, run.A * (BOHR if unit == "angstrom" else 1), "lattice", rtol=2e-8)
    # the operations on reciprocal crystal coordinates, from the cartesian rotations
    R = np.array([run.A @ w @ np.linalg.inv(run.A) for w in run.W])
    want = np.round(np.array([run.A.T @ r @ np.linalg.inv(run.A.T) for r in R]))
    S = np.asarray(S)
    c.event(f"listed-symmetries:{not run.omit_symmetry}")
    c.event(f"translations:{bool(np.any(run.frac))}")
    c.event(f"lattice-only:{bool(len(run.lattice_ops))}")
    c.ok(S.shape == ((len(want), 4, 4) if np.any(run.frac) else (len(want), 3, 3)), "operation-count", f"{S.shape} {want.shape}")
    c.close(S[:, :3, :3], want, "operations", atol=1e-9)
    # bands invariant under the point group keep their values at the images the operations point to
    g = Symmetry.point_group(S)
    n = len(np.asarray(g.S)) * (2 if g.inversion else 1)
    c.ok(n == len(want), "group-order")
    for x, y in zip(res, again):
        c.close(np.asarray(x), np.asarray(y), "repeatable", rtol=0)


@workload("C21", quick=60, thorough=500)
def shipped(c, rng):
    """the real run that is shipped as an example, with the file permuted in ways that carry no meaning"""
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(qe.__file__))), "examples", "qe-data", "cu.xml")
    if not os.path.exists(src):
        raise Skip()
    text = open(src).read()
    with scratch():
        os.mkdir("qe-data")
        open("qe-data/cu.xml", "w").write(text)
        q = qe.from_disk("cu", read_output=bool(rng.random() < .5))
        c.close(q.A, np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]]).T * 3.6148 / 2, "lattice", rtol=1e-7)
        c.ok(list(q.types) == ["Cu"] and np.abs(q.basis).max() < 1e-12, "crystal")
        c.close(np.array(q.kinetic_energy_cutoff), np.array(45.0), "cut-off-rydberg", rtol=1e-9)
        c.ok(abs(q.mass_density() - 8935) < 20, "density")
        k, b, S, ef = q.read_bands_crystal()
    c.key(int(rng.integers(10)))
    c.ok(len(S) == 48 and b.shape[1] == 20 and len(k) == len(b), "shapes")
    c.close(np.array(ef), np.array(.4583461049908515 * HA), "fermi-energy-eV", rtol=2e-7)
    kk = k * 24
    c.ok(np.abs(kk - np.round(kk)).max() < 1e-5, "k-grid")


@workload("C21", quick=200, thorough=2000)
def disk(c, rng):
    run = Run(rng)
    out = rng.random() < .5
    alt = rng.random() < .6  # a relaxed structure: input and output differ
    ib = rng.uniform(0, 1, size=run.basis.shape) if alt else run.basis
    iA = run.A * rng.uniform(.8, 1.2) if alt else run.A
    ie = run.ecut * 1.5 if alt else run.ecut
    with scratch():
        text = run.write(input_basis=ib, input_A=iA, input_ecut=ie)
        old = dict(qe.pp_files)
        try:
            qe.pp_files.clear()
            q = qe.from_disk(run.name) if out and rng.random() < .5 else qe.from_disk(run.name, read_output=out)
            pp = dict(qe.pp_files)
        finally:
            qe.pp_files.clear()
            qe.pp_files.update(old)
    c.key(text, out)
    c.event(f"section:{'output' if out else 'input'}")
    A, basis, ecut = (run.A, run.basis, run.ecut) if out else (iA, ib, ie)
    c.ok(q.name == run.name and q.unit == "angstrom" and q.ibrav == 0, "identity")
    c.close(np.asarray(q.A), A * BOHR, "lattice", rtol=2e-8)
    c.close(np.asarray(q.basis), basis, "atom-positions", atol=1e-9)
    c.ok(list(q.types) == run.types, "species")
    c.ok(pp == run.pseudo, "pseudopotentials")
    c.close(np.array(q.kinetic_energy_cutoff), np.array(2 * ecut), "cut-off-rydberg", rtol=1e-9)
    if run.smearing == "fd":
        c.close(np.array(q.T * KB_RY), np.array(2 * run.degauss), "temperature", rtol=1e-6)
    else:
        c.ok(q.T == 0, "temperature")
    c.ok(q.nk == run.parallel["npool"] and q.nd == run.parallel["ndiag"] and q.nt == run.parallel["ntasks"], "parallel")


@workload("C21", quick=150, thorough=1500)
def projections(c, rng):
    nk, nb, ns, nw = (int(x) for x in (rng.integers(1, 5), rng.integers(1, 7), rng.choice([1, 1, 2, 4]), rng.integers(1, 6)))
    k = rng.normal(size=(nk, 3))
    e = np.sort(rng.normal(size=(nk, nb)), 1)
    p = rng.normal(size=(nk, nb, ns, nw)) + 1j * rng.normal(size=(nk, nb, ns, nw))
    ovl = rng.random() < .4
    S = rng.normal(size=(nk, ns * nw, ns * nw)) + 1j * rng.normal(size=(nk, ns * nw, ns * nw))
    S = S + np.conj(np.swapaxes(S, 1, 2))
    ef, ne = float(rng.normal()), float(rng.integers(1, 30))

    def cplx(v):
        return vec(np.stack([v.real, v.imag], -1).ravel(), 4)
    x = f'<?xml version="1.0" encoding="UTF-8"?>\n<PROJECTIONS>\n  <HEADER NUMBER_OF_BANDS="{nb}" NUMBER_OF_K-POINTS="{nk}" NUMBER_OF_SPIN_COMPONENTS="{ns}" NUMBER_OF_ATOMIC_WFC="{nw}" NUMBER_OF_ELECTRONS="{num(ne)}" FERMI_ENERGY="{num(ef)}"/>\n  <EIGENSTATES>\n'
    for i in range(nk):
        x += f'    <K-POINT Weight="1.0">{vec(k[i])}    </K-POINT>\n    <E>{vec(e[i], 5)}    </E>\n    <PROJS>\n'
        order = [(s, w) for s in range(ns) for w in range(nw)]
        for j in rng.permutation(len(order)) if rng.random() < .3 else range(len(order)):
            s, w = order[j]
            x += f'      <ATOMIC_WFC index="{w+1}" spin="{s+1}">{cplx(p[i, :, s, w])}      </ATOMIC_WFC>\n'
        x += "    </PROJS>\n"
    x += "  </EIGENSTATES>\n"
    if ovl:
        x += "  <OVERLAPS>\n" + "".join(f'    <OVPS dim="{ns*nw}" spin="1">{cplx(s.ravel())}    </OVPS>\n' for s in S) + "  </OVERLAPS>\n"
    x += "</PROJECTIONS>\n"
    c.key(x)
    with scratch():
        os.makedirs("qe-data/ab.save")
        own = rng.random() < .3
        name = "other.xml" if own else "qe-data/ab.save/atomic_proj.xml"
        open(name, "w").write(x)
        q = qe.QECrystal("ab", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        r = q.read_projections(name) if own else q.read_projections()
    c.close(r[0], k, "projection-k", rtol=1e-12)
    c.close(r[1], e * RY, "projection-energies-eV", rtol=2e-7)
    c.close(np.array(r[3]), np.array(ef * RY), "projection-fermi-eV", rtol=2e-7)
    c.ok(r[4] == ne, "electron-count")
    if ovl:
        c.close(r[2][0], p, "projections", rtol=1e-12)
        o = r[2][1]
        # the storage order of the (hermitian) matrix is a convention of the program version
        if np.abs(o - S).max() > 1e-10:
            c.close(o, np.conj(S), "overlaps", rtol=1e-12)
        else:
            c.close(o, S, "overlaps", rtol=1e-12)
    else:
        c.close(r[2], p, "projections", rtol=1e-12)


ORB = {"s": ["s"], "p": ["pz", "px", "py"], "d": ["dz2", "dxz", "dyz", "dx2-y2", "dxy"], "f": ["f"]}


@workload("C21", quick=100, thorough=1000)
def order(c, rng):
    n = int(rng.integers(1, 6))
    types = [str(x) for x in rng.choice(ELEMENTS, size=n)]
    out = "     Program PROJWFC v.7.3.1 starts on  1Jan2024\n\nLowdin Charges: \n\n"
    want = []
    for i in range(n):
        ls = ["s", "p", "d"][:int(rng.integers(1, 4))]
        tot = rng.uniform(0, 20)
        for l in ls:
            q = rng.uniform(0, 9)
            line = f"     Atom #{i+1:4d}: total charge ={tot:9.4f}, {l} ={q:8.4f}, "
            if l == "s":
                want.append(f"{i+1}{types[i]}_s")
            else:
                line += "".join(f"{o}={q/len(ORB[l]):8.4f}, " for o in ORB[l])
                want += [f"{i+1}{types[i]}_{o}" for o in ORB[l]]
            out += line + "\n"
    sp = round(float(rng.uniform(0, .2)), 4)
    out += f"     Spilling Parameter:  {sp:8.4f}\n\n     PROJWFC      :      0.20s CPU      0.21s WALL\n"
    c.key(out)
    with scratch():
        open("ab.projwfc.out", "w").write(out)
        q = qe.QECrystal("ab", np.eye(3), rng.random(size=(n, 3)), types, 30.0)
        o, s = q.read_projections_order_spilling()
    c.ok(list(o) == want, "orbital-order", f"{o} {want}")
    c.ok(s == sp, "spilling")


@workload("C21", quick=80, thorough=800)
def wavefunctions(c, rng):
    nk = int(rng.integers(1, 13))
    nb, npol = int(rng.integers(1, 5)), int(rng.choice([1, 2]))
    B = rotation(rng) @ rng.uniform(.3, 2, size=(3, 3)) + np.eye(3)
    if abs(np.linalg.det(B)) < .1:
        raise Skip()
    ks, gs, cs = [], [], []
    with scratch():
        os.makedirs("qe-data/ab.save")
        for i in rng.permutation(nk):
            pass
        for i in range(nk):
            k = rng.normal(size=3)
            g = rng.integers(-4, 5, size=(int(rng.integers(1, 9)), 3)).astype(np.int32)
            e = rng.normal(size=(nb, len(g), npol)) + 1j * rng.normal(size=(nb, len(g), npol))
            ks.append(k), gs.append(g), cs.append(e)
        for i in rng.permutation(nk):
            k, g, e = ks[i], gs[i], cs[i]
            with open(f"qe-data/ab.save/wfc{i+1}.dat", "wb") as f:
                record(f, np.int32(i + 1), B @ k, np.int32(1), np.int32(0), np.float64(1.0))
                record(f, np.int32(len(g)), np.int32(len(g)), np.int32(npol), np.int32(nb))
                record(f, B[:, 0], B[:, 1], B[:, 2])
                record(f, g)
                for j in range(nb):
                    # io_base.f90: the first spinor component of all plane waves, then the second
                    record(f, e[j].T.copy())
        open("qe-data/ab.save/charge-density.dat", "wb").write(b"x")
        q = qe.QECrystal("ab", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        rk, rg, rc = q.read_wavefunctions()
    c.key(ks, cs)
    c.event(f"npol:{npol}")
    c.close(rk, np.array(ks), "wave-k-crystal", rtol=1e-9)
    c.ok(len(rg) == len(rc) == nk, "wave-count")
    for i in range(nk):
        c.ok(np.array_equal(rg[i], gs[i]), "wave-g")
        c.close(rc[i], cs[i], "wave-coefficients", rtol=0)


@workload("C21", quick=60, thorough=600)
def charge(c, rng):
    ns, n = int(rng.choice([1, 2, 4])), int(rng.integers(1, 30))
    B = rng.normal(size=(3, 3))
    g = rng.integers(-4, 5, size=(n, 3)).astype(np.int32)
    rho = rng.normal(size=(ns, n)) + 1j * rng.normal(size=(ns, n))
    with scratch():
        os.makedirs("qe-data/ab.save")
        with open("qe-data/ab.save/charge-density.dat", "wb") as f:
            record(f, np.int32(0), np.int32(n), np.int32(ns))
            record(f, B[:, 0], B[:, 1], B[:, 2])
            record(f, g)
            for r in rho:
                record(f, r)
        q = qe.QECrystal("ab", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        rg, rr = q.read_charge_density()
    c.key(rho)
    c.ok(np.array_equal(rg, g), "charge-g")
    c.close(rr, rho, "charge-coefficients", rtol=0)


@workload("C21", quick=80, thorough=800)
def tables(c, rng):
    """bands.x, dos.x and epsilon.x tables, pseudopotential headers"""
    q = qe.QECrystal("ab", np.eye(3), rng.random(size=(3, 3)), ["Cu", "Fe", "Cu"], 30.0)
    with scratch():
        nk, nb = int(rng.integers(2, 20)), int(rng.integers(1, 24))
        k = np.round(rng.uniform(-1, 1, size=(nk, 3)), 6)
        e = np.round(rng.uniform(-50, 50, size=(nk, nb)), 3)
        with open("ab.Bandx.dat", "w") as f:
            f.write(f" &plot nbnd={nb:4d}, nks={nk:6d} /\n")
            for a, b in zip(k, e):
                f.write("          " + "".join(f"{x:10.6f}" for x in a) + "\n")
                for i in range(0, nb, 10):
                    f.write("".join(f"{x:9.3f}" for x in b[i:i + 10]) + "\n")
        rk, rb = q.read_bandx_raw()
        c.key(k, e)
        c.close(rk, k, "bandx-k", rtol=0, atol=1e-12)
        c.close(rb, e, "bandx-energies", rtol=0, atol=1e-12)
        # plottable output
        x = np.cumsum(rng.uniform(.1, .3, size=nk))
        sx = np.round(np.sort(rng.choice(x, size=int(rng.integers(1, nk + 1)), replace=False)), 4)
        with open("ab.bandx.out", "w") as f:
            f.write("     Program BANDS v.7.3.1 starts\n")
            for s in sx:
                f.write(f"     high-symmetry point:  0.0000 0.5000 0.0000   x coordinate   {s:.4f}\n")
            f.write("\n     Plottable bands (eV) written to file ab.Bandx.dat.gnu\n     Bands written to file ab.Bandx.dat\n")
        with open("ab.Bandx.dat.gnu", "w") as f:
            for j in range(nb):
                for a, b in zip(x, e[:, j]):
                    f.write(f"{a:10.4f}{b:10.4f}\n")
                f.write("\n")
        rs, z = q.read_bandx()
        c.close(rs, sx, "bandx-corners", atol=1e-12)
        c.close(z[1], e.T.ravel(), "bandx-plot", atol=1e-9)
        c.close(z[0], np.round(np.tile(x, nb), 4), "bandx-plot", atol=1e-9)
        # density of states
        E = np.linspace(-3, 3, 13)
        d, N = np.round(rng.random(13), 4), np.round(np.sort(rng.random(13) * 9), 4)
        ef = round(float(rng.normal() * 9), 3)
        with open("ab.Dos.dat", "w") as f:
            f.write(f"#  E (eV)   dos(E)     Int dos(E) EFermi = {ef:8.3f} eV\n")
            for r in zip(E, d, N):
                f.write(f"{r[0]:9.3f} {r[1]:11.4E} {r[2]:11.4E}\n")
        (a, b, n), f = q.read_dos()
        c.ok(f == ef, "dos-fermi", f"{f} {ef}")
        c.close(a, E, "dos-energies", atol=1e-9)
        c.close(b, d, "dos-density", atol=1e-9)
        c.close(n, N, "dos-states", rtol=1e-4)
        # dielectric function
        w = np.linspace(0, 10, 7)
        er, ei = rng.normal(size=(2, 7, 3))
        for nm, v in (("epsr", er), ("epsi", ei)):
            with open(f"{nm}_ab.dat", "w") as f:
                f.write("# energy grid [eV]     " + nm + "_x  y  z\n#\n#\n")
                for a, b in zip(w, v):
                    f.write(f"{a:15.9f}" + "".join(f"{t:18.12f}" for t in b) + "\n")
        rw, re = q.read_dielectric_function()
        c.close(rw, w, "dielectric-energy", atol=1e-8)
        c.close(re, er + 1j * ei, "dielectric", atol=1e-11)
        # pseudopotentials
        os.mkdir("pseudo")
        old = dict(qe.pp_files)
        try:
            qe.pp_files.clear()
            z = {"Cu": int(rng.integers(1, 20)), "Fe": int(rng.integers(1, 20))}
            cut = {"Cu": float(rng.integers(20, 90)), "Fe": float(rng.integers(20, 90))}
            for t in z:
                qe.pp_files[t] = t + ".UPF"
                open(f"pseudo/{t}.UPF", "w").write(f'<UPF version="2.0.1">\n<PP_INFO>x</PP_INFO>\n<PP_HEADER element="{t}" z_valence="{num(z[t])}" wfc_cutoff="{num(cut[t])}" rho_cutoff="{num(4*cut[t])}"/>\n</UPF>\n')
            types = [str(rng.choice(["Cu", "Fe"])) for _ in range(int(rng.integers(1, 5)))]
            p = qe.QECrystal("ab", np.eye(3), rng.random(size=(len(types), 3)), types)
            c.close(np.array(p.kinetic_energy_cutoff), np.array(max(cut[t] for t in types)), "cut-off-suggestion", rtol=1e-12)
            c.ok(p.read_valence_electrons() == sum(z[t] for t in types), "valence-electrons")
        finally:
            qe.pp_files.clear()
            qe.pp_files.update(old)
