"""Synthetic Quantum Espresso runs: the files as written by QE 7 (layout of examples/qe-data/cu.xml) with known contents."""
import os
import numpy as np
from .c10 import gen_group
from .groups import closure

BOHR = 0.529177210903     # angstrom
HA = 27.211386245988      # eV
RY = HA / 2
KB_RY = 8.617333262e-5 / RY   # Rydberg per Kelvin
ELEMENTS = ["H", "He", "Li", "C", "O", "Na", "Al", "Si", "Fe", "Cu", "Zn", "Sn", "W", "Pb", "U"]
MASS = dict(H=1.008, He=4.0026, Li=6.97, C=12.011, O=15.999, Na=22.98977, Al=26.98154, Si=28.085, Fe=55.845, Cu=63.546, Zn=65.38, Sn=118.71, W=183.84, Pb=207.2, U=238.0289)


def rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    return q if np.linalg.det(q) > 0 else -q


def symmetric_lattice(rng, limit=48):
    """(A, W): lattice vectors as columns and the integer real-space operations in crystal coordinates of a point group of the lattice"""
    while True:
        d, _, W = gen_group(rng, integer=True, limit=limit)
        if d == 3:
            break
    W = np.round(W)
    X = rng.normal(size=(3, 3))
    X = X @ X.T + np.eye(3) * .5
    M = np.mean([w.T @ X @ w for w in W], axis=0)
    A = np.linalg.cholesky(M).T
    A = rotation(rng) @ A * rng.uniform(2, 8)
    if np.linalg.det(A) < 0:
        A = -A
    return A, W


def num(x):
    s = f"{float(x):.15E}"
    m, e = s.split("E")
    return f"{m}E{e[0]}{int(e[1:]):03d}"


def vec(v, per=3, rng=None):
    rows = ["  " + "  ".join(num(x) for x in v[i:i + per]) for i in range(0, len(v), per)]
    return "\n" + "\n".join(rows) + "\n"


class Run:
    """everything that the xml of a run contains, in QE's units"""

    def __init__(self, rng, name=None):
        self.rng = rng
        self.name = name or str(rng.choice(["cu", "Fe2O3", "my-crystal_1"]))
        A, W = symmetric_lattice(rng)
        self.A = A  # bohr
        self.W = W
        self.alat = float(np.linalg.norm(A[:, 0])) if rng.random() < .7 else float(rng.uniform(1, 10))
        n = int(rng.integers(1, 5))
        self.basis = rng.uniform(0, 1, size=(n, 3)) if rng.random() < .8 else np.round(rng.uniform(0, 1, size=(n, 3)) * 4) / 4
        self.kinds = [str(x) for x in rng.permutation(ELEMENTS)[:int(rng.integers(1, 4))]]
        self.types = [str(rng.choice(self.kinds)) for _ in range(n)]
        self.kinds = [k for k in self.kinds if k in self.types]
        perm = np.concatenate([[0], 1 + rng.permutation(len(W) - 1)]).astype(int) if len(W) > 1 else np.array([0])
        i = [j for j in range(len(W)) if np.allclose(W[j], np.eye(3))][0]
        W = np.concatenate([W[i:i + 1], np.delete(W, i, axis=0)])[perm]
        self.W = W
        # the atoms may have fewer symmetries than the lattice: the rest is listed behind as lattice symmetry without translation
        if rng.random() < .4 and len(W) > 1:
            sub = closure([W[int(rng.integers(len(W)))]])
            rest = [w for w in W if not any(np.allclose(w, s) for s in sub)]
            self.W, self.lattice_ops = np.round(sub), rest
        else:
            self.lattice_ops = []
        self.frac = np.zeros((len(self.W), 3))
        if rng.random() < .25:
            n, how = len(self.W), rng.random()
            if how < .4:
                t = rng.choice([0, .5, 1 / 3, .25], size=(n, 3))
            elif how < .6:
                t = rng.choice([0, .5, -.5, 1 / 3, -1 / 3, .25, -.25], size=(n, 3))
            elif how < .8:
                # as many to the left as to the right
                t = np.zeros((n, 3))
                if n > 2:
                    for _ in range(int(rng.integers(1, 3))):
                        i, j = 1 + rng.choice(n - 1, 2, replace=False)
                        v = rng.choice([0, .5, .25, 1 / 3], size=3)
                        v[int(rng.integers(3))] = .5
                        t[i], t[j] = v, -v
            else:
                # only one operation has a translation
                t = np.zeros((n, 3))
                t[int(rng.integers(n)), int(rng.integers(3))] = float(rng.choice([.5, -.5, .25, 1 / 6, .01]))
            t[0] = 0
            self.frac = t
        # translations are optional, and a run without any symmetry may list none
        self.omit_translation = not np.any(self.frac) and rng.random() < .2
        self.omit_symmetry = len(self.W) == 1 and not len(self.lattice_ops) and rng.random() < .4
        self.nk = int(rng.integers(1, 7))
        self.nb = int(rng.integers(1, 9))
        self.lsda = rng.random() < .15
        self.k = rng.uniform(-1, 1, size=(self.nk, 3)) if rng.random() < .5 else rng.integers(-4, 5, size=(self.nk, 3)) / 8
        m = self.nb * (2 if self.lsda else 1)
        self.bands = np.sort(rng.normal(size=(self.nk, m)), axis=1)
        self.fermi = float(rng.normal())
        self.ecut = float(rng.choice([22.5, 30.0, 12.25, rng.uniform(5, 60)]))
        self.smearing, self.degauss = [("mv", .005), ("fd", float(rng.uniform(1e-4, 2e-2))), ("gaussian", .01), (None, None)][int(rng.choice([0, 1, 1, 2, 3]))]
        self.parallel = dict(nprocs=int(rng.integers(1, 9)), nthreads=1, ntasks=int(rng.integers(1, 5)), nbgrp=1, npool=int(rng.integers(1, 9)), ndiag=int(rng.integers(1, 5)))
        self.pseudo = {t: f"{t}.pbesol-{'d' if rng.random() < .5 else ''}n-kjpaw_psl.{rng.integers(3)}.0.UPF" for t in self.kinds}

    @property
    def b(self):
        """reciprocal vectors as columns in units of 2 pi/alat"""
        return np.linalg.inv(self.A).T * self.alat

    def cell(self, A, name):
        return "\n".join(f"        <a{i+1}>{' '.join(num(x) for x in A[:, i])}</a{i+1}>" for i in range(3))

    def structure(self, A, basis, types):
        at = "\n".join(f'        <atom name="{t}" index="{i+1}">{"  ".join(num(x) for x in A @ p)}</atom>' for i, (t, p) in enumerate(zip(types, basis)))
        return f"""    <atomic_structure nat="{len(types)}" alat="{self.alat:.16f}">
      <atomic_positions>
{at}
      </atomic_positions>
      <cell>
{self.cell(A, '')}
      </cell>
    </atomic_structure>"""

    def species(self, kinds):
        sp = "\n".join(f"""      <species name="{t}">
        <mass>{num(MASS[t])}</mass>
        <pseudo_file>{self.pseudo[t]}</pseudo_file>
      </species>""" for t in kinds)
        return f"""    <atomic_species ntyp="{len(kinds)}" pseudo_dir="./pseudo/">
{sp}
    </atomic_species>"""

    def smear(self):
        return "" if self.smearing is None else f'      <smearing degauss="{self.degauss:.16E}">{self.smearing}</smearing>'

    def xml(self, input_basis=None, input_A=None, input_ecut=None):
        rng = self.rng
        basis = self.basis if input_basis is None else input_basis
        A = self.A if input_A is None else input_A
        sym = ""
        for i, w in enumerate(list(self.W) + list(self.lattice_ops)):
            crystal = i < len(self.W)
            if self.omit_symmetry:
                continue
            ft = f"\n        <fractional_translation>{vec(self.frac[i])}        </fractional_translation>" if crystal and not self.omit_translation else ""
            eq = f'\n        <equivalent_atoms size="{len(self.types)}" nat="{len(self.types)}">\n  {" ".join(str(j+1) for j in range(len(self.types)))}\n        </equivalent_atoms>' if crystal else ""
            sym += f"""
      <symmetry>
        <info name="some rotation"{' class="not found"' if crystal else ''}>{'crystal' if crystal else 'lattice'}_symmetry</info>
        <rotation rank="2" dims="           3           3">{vec(w.ravel())}        </rotation>{ft}{eq}
      </symmetry>"""
        ks = ""
        for k, e in zip(self.k @ self.b.T, self.bands):
            ks += f"""
      <ks_energies>
        <k_point weight="{1 / self.nk:.16E}">{vec(k) if rng.random() < .5 else '  '.join(num(x) for x in k)}</k_point>
        <npw>411</npw>
        <eigenvalues size="{len(e)}">{vec(e, 5)}        </eigenvalues>
        <occupations size="{len(e)}">{vec(np.ones(len(e)), 5)}        </occupations>
      </ks_energies>"""
        par = "\n".join(f"    <{k}>{v}</{k}>" for k, v in self.parallel.items())
        b = "\n".join(f"        <b{i+1}>{vec(self.b[:, i]) if rng.random() < .5 else ' '.join(num(x) for x in self.b[:, i])}</b{i+1}>" for i in range(3))
        return f"""<?xml version="1.0" encoding="UTF-8"?>
<qes:espresso xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0" Units="Hartree atomic units">
  <!-- All quantities are in Hartree atomic units unless otherwise specified -->
  <general_info>
    <xml_format NAME="QEXSD" VERSION="24.03.04">QEXSD_24.03.04</xml_format>
  </general_info>
  <parallel_info>
{par}
  </parallel_info>
  <input>
{self.species(self.kinds)}
{self.structure(A, basis, self.types)}
    <bands>
      <nbnd>{self.nb}</nbnd>
{self.smear()}
    </bands>
    <basis>
      <gamma_only>false</gamma_only>
      <ecutwfc>{num(self.ecut if input_ecut is None else input_ecut)}</ecutwfc>
      <ecutrho>{num(4 * self.ecut)}</ecutrho>
    </basis>
  </input>
  <output>
{self.species(self.kinds)}
{self.structure(self.A, self.basis, self.types)}
    <symmetries>
      <nsym>{len(self.W)}</nsym>
      <nrot>{len(self.W) + len(self.lattice_ops)}</nrot>
      <space_group>0</space_group>{sym}
    </symmetries>
    <basis_set>
      <gamma_only>false</gamma_only>
      <ecutwfc>{num(self.ecut)}</ecutwfc>
      <ecutrho>{num(4 * self.ecut)}</ecutrho>
      <reciprocal_lattice>
{b}
      </reciprocal_lattice>
    </basis_set>
    <band_structure>
      <lsda>{str(self.lsda).lower()}</lsda>
      <nbnd>{self.nb}</nbnd>
      <nelec>{num(8)}</nelec>
      <fermi_energy>{num(self.fermi)}</fermi_energy>
      <starting_k_points>
        <monkhorst_pack nk1="4" nk2="4" nk3="4" k1="0" k2="0" k3="0">Monkhorst-Pack</monkhorst_pack>
      </starting_k_points>
      <nks>{self.nk}</nks>
      <occupations_kind>smearing</occupations_kind>
{self.smear()}{ks}
    </band_structure>
  </output>
</qes:espresso>
"""

    def write(self, **kw):
        os.makedirs(f"qe-data/{self.name}.save", exist_ok=True)
        text = self.xml(**kw)
        with open(f"qe-data/{self.name}.xml", "w") as f:
            f.write(text)
        return text


def record(f, *parts):
    """a Fortran unformatted record"""
    data = b"".join(np.ascontiguousarray(p).tobytes() for p in parts)
    m = np.int32(len(data)).tobytes()
    f.write(m + data + m)
