"""C22: Quantum Espresso / Wannier90 inputs describe the requested crystal; lattice constructors; densities."""
import os
import re
import contextlib
import warnings
import numpy as np
from .core import workload, Skip, scratch, quiet, digest
from .qegen import Run, BOHR, HA, KB_RY, ELEMENTS, MASS, rotation
from .c20 import gen_path
from tight_binding_redweasel import qespresso_interface as qe
warnings.simplefilter("ignore")
ME = 5.48579909e-4  # electron mass in u
U = 1.66053907e-27


# ------------------------------------------------------------------ lattices

def length(v):
    return float(np.linalg.norm(v))


def angle(u, v):
    return float(np.arccos(np.clip(u @ v / length(u) / length(v), -1, 1)))


def conv(a, b, c, al, be, ga):
    """Gram matrix of the conventional cell"""
    return np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)], [a * c * np.cos(be), b * c * np.cos(al), c * c]])


CENTER = {"P": [], "I": [(.5, .5, .5)], "F": [(0, .5, .5), (.5, 0, .5), (.5, .5, 0)], "C": [(.5, .5, 0)]}


@workload("C22", quick=600, thorough=8000)
def lattices(c, rng):
    a, b, h = rng.uniform(.2, 9, size=3)
    r = np.pi / 2
    kind = str(rng.choice(["sc", "fcc", "bcc", "hexagonal", "triclinic", "monoclinic", "monoclinic_base_centered", "orthorhombic", "orthorhombic_base_centered",
                           "orthorhombic_body_centered", "orthorhombic_face_centered", "tetragonal", "tetragonal_body_centered", "rhombohedral"]))
    f = getattr(qe, kind)
    c.event("lattice:" + kind)
    be = float(rng.uniform(.3, 2.8))
    if kind == "triclinic":
        u = rng.normal(size=(3, 3))
        al, be, ga = angle(u[1], u[2]), angle(u[0], u[2]), angle(u[0], u[1])
        if abs(np.linalg.det(u)) / length(u[0]) / length(u[1]) / length(u[2]) < .02:
            raise Skip()
        args, cell, cen = (a, b, h, al, be, ga), (a, b, h, al, be, ga), "P"
    elif kind == "rhombohedral":
        al = float(rng.uniform(.1, 2.05))
        args, cell, cen = (a, al), (a, a, a, al, al, al), "P"
    elif kind == "hexagonal":
        args, cell, cen = (a, h), (a, a, h, r, r, 2 * np.pi / 3), "P"
    elif kind.startswith("mono"):
        args, cell, cen = (a, b, h, be), (a, b, h, r, be, r), "C" if "base" in kind else "P"
    elif kind.startswith("ortho"):
        args, cell, cen = (a, b, h), (a, b, h, r, r, r), "C" if "base" in kind else "I" if "body" in kind else "F" if "face" in kind else "P"
    elif kind.startswith("tetra"):
        args, cell, cen = (a, h), (a, a, h, r, r, r), "I" if "body" in kind else "P"
    else:
        args, cell, cen = (a,), (a, a, a, r, r, r), {"sc": "P", "fcc": "F", "bcc": "I"}[kind]
    c.key(kind, args)
    A = f(*args)
    c.ok(A.shape == (3, 3), "shape")
    G = conv(*cell)
    vol = np.sqrt(np.linalg.det(G))
    det = np.linalg.det(A)
    c.ok(det > 0, "right-handed", f"{kind}{args} {det}")
    n = 1 + len(CENTER[cen])
    c.close(np.array(det), np.array(vol / n), "volume", rtol=1e-7)
    if cen == "P":
        c.close(A.T @ A, G, "lengths-and-angles", rtol=1e-9)
        return
    # the conventional cell: axis aligned for the orthogonal systems, (a, 0, 0), (0, b, 0), c in the xz-plane for the monoclinic one
    C = np.array([[a, 0, 0], [0, cell[1], 0], [np.cos(cell[4]) * cell[2], 0, np.sin(cell[4]) * cell[2]]]).T
    c.close(C.T @ C, G, "oracle-cell", rtol=1e-9)
    for v in list(np.eye(3)) + CENTER[cen]:
        m = np.linalg.solve(A, C @ np.array(v, float))
        c.ok(np.abs(m - np.round(m)).max() < 1e-8, "centring", f"{kind}{args} {v} {m}")
    m = np.linalg.solve(C, A) * 2
    c.ok(np.abs(m - np.round(m)).max() < 1e-8, "centring")


@workload("C22", quick=100, thorough=1000)
def impossible(c, rng):
    """parameters without a lattice are refused, not turned into numbers"""
    a, b, h = rng.uniform(.2, 9, size=3)
    cases = [("triclinic", (a, b, h, 2.5, 2.5, 2.5)), ("triclinic", (a, b, h, .3, .5, 2.0)), ("triclinic", (-a, b, h, 1.2, 1.3, 1.4)), ("triclinic", (a, b, h, 1.2, 3.3, 1.4)),
             ("monoclinic", (a, b, h, 3.3)), ("monoclinic", (a, -b, h, 2.3)), ("monoclinic_base_centered", (a, b, h, -.1)), ("orthorhombic", (a, b, 0.0)),
             ("orthorhombic_face_centered", (a, -b, h)), ("orthorhombic_body_centered", (-a, b, h)), ("orthorhombic_base_centered", (a, b, -h)),
             ("tetragonal", (-a, h)), ("tetragonal_body_centered", (a, -h)), ("rhombohedral", (a, 2.2)), ("rhombohedral", (-a, 1.2))]
    n, args = cases[int(rng.integers(len(cases)))]
    c.key(n, args)
    try:
        A = getattr(qe, n)(*args)
    except (AssertionError, ValueError):
        c.ok(True, "refused")
        return
    c.ok(False, "refused", f"{n}{args} gave {A}")


# ------------------------------------------------------------------ generated inputs

@contextlib.contextmanager
def recorder():
    """stand-ins for the process calls: nothing is executed, the commands and the input files at that time are kept"""
    import subprocess
    calls = []

    def snapshot():
        return {f: open(f).read() for f in os.listdir(".") if f.endswith((".in", ".win"))}

    def system(cmd):
        calls.append((cmd, snapshot()))
        return 0

    class Res:
        stdout = b""
        stderr = b""
        returncode = 0

    def run(cmd, **kw):
        calls.append((cmd, kw.get("cwd")))
        return Res()

    def popen(*a, **kw):
        raise AssertionError("no process may be started here")
    old = os.system, subprocess.run, subprocess.Popen
    os.system, subprocess.run, subprocess.Popen = system, run, popen
    try:
        yield calls
    finally:
        os.system, subprocess.run, subprocess.Popen = old


class Bad(Exception):
    pass


def value(t):
    t = t.strip()
    if t[:1] in "'\"":
        if len(t) < 2 or t[-1] != t[0]:
            raise Bad(f"string {t}")
        return t[1:-1]
    l = t.lower()
    if re.fullmatch(r"\.?(t|true|f|false)\.?", l):
        return l.strip(".").startswith("t")
    if re.fullmatch(r"[-+]?\d+", t):
        return int(t)
    try:
        return float(l.replace("d", "e"))
    except ValueError:
        raise Bad(f"value {t!r}")


def parse_qe(text):
    """(namelists, cards) of a pw.x-like input"""
    lists, cards = {}, {}
    lines = text.split("\n")
    i = 0
    card = None
    while i < len(lines):
        l = lines[i].strip()
        i += 1
        if not l or l[0] in "!#":
            continue
        if l.startswith("&"):
            name = l[1:].strip().lower()
            d = lists.setdefault(name, {})
            while True:
                if i >= len(lines):
                    raise Bad(f"namelist {name} is not closed")
                l = lines[i].strip()
                i += 1
                if l == "/":
                    break
                rest = re.split(r"!(?=(?:[^']*'[^']*')*[^']*$)", l)[0].strip()
                while rest:
                    m = re.match(r"""([A-Za-z_][A-Za-z_0-9]*(?:\(\d+\))?)\s*=\s*('[^']*'|"[^"]*"|[^,\s'"]+)\s*(,?)\s*""", rest)
                    if not m:
                        raise Bad(f"namelist {name}: {rest!r}")
                    k = m[1].lower()
                    if k in d:
                        raise Bad(f"{k} twice")
                    d[k] = value(m[2])
                    rest = rest[m.end():]
            card = None
            continue
        w = l.split()
        if w[0].upper() in ("CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS"):
            card = w[0].upper()
            if card in cards:
                raise Bad(f"{card} twice")
            cards[card] = (" ".join(w[1:]).strip("{}() ").lower(), [])
        elif card:
            cards[card][1].append(w)
        else:
            raise Bad(f"stray line {l!r}")
    return lists, cards


def parse_win(text):
    kw, blocks = {}, {}
    block = None
    for l in text.split("\n"):
        l = re.split(r"[!#]", l)[0].strip()
        if not l:
            continue
        m = re.match(r"(begin|end)\s+(\w+)$", l, re.I)
        if m and m[1].lower() == "begin":
            if block is not None or m[2].lower() in blocks:
                raise Bad(l)
            block = m[2].lower()
            blocks[block] = []
        elif m:
            if block != m[2].lower():
                raise Bad(l)
            block = None
        elif block:
            blocks[block].append(l.split())
        else:
            m = re.match(r"(\w+)\s*[=: ]\s*(.+)$", l)
            if not m or m[1].lower() in kw:
                raise Bad(l)
            kw[m[1].lower()] = m[2].strip()
    if block:
        raise Bad(block)
    return kw, blocks


def gen_crystal(rng):
    unit = str(rng.choice(["angstrom", "bohr"]))
    u = rng.random()
    A = rotation(rng) @ (rng.normal(size=(3, 3)) + 2 * np.eye(3)) * rng.uniform(.5, 4)
    if u < .2:
        A = np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]]).T * rng.uniform(1, 5)
    elif u < .3:
        A = rng.integers(-1, 2, size=(3, 3)) + 4 * np.eye(3, dtype=int)
    if abs(np.linalg.det(A)) < .05 * np.prod(np.linalg.norm(A, axis=0)):
        raise Skip()
    n = int(rng.integers(1, 6))
    basis = rng.uniform(0, 1, size=(n, 3))
    if rng.random() < .3:
        basis = rng.integers(0, 4, size=(n, 3)) / 4
    if rng.random() < .1:
        basis = basis * 1e-5
    kinds = [str(x) for x in rng.permutation(ELEMENTS)[:int(rng.integers(1, 4))]]
    types = [str(rng.choice(kinds)) for _ in range(n)]
    ecut = float(rng.choice([30.0, 45.5, rng.uniform(5, 99)]))
    kw = dict(unit=unit)
    if rng.random() < .3:
        kw["relativistic"] = True
    args = (A if rng.random() < .8 else A.tolist(), basis if rng.random() < .5 else [tuple(b) for b in basis.tolist()], types if rng.random() < .7 else tuple(types))
    q = qe.QECrystal("my-" + kinds[0].lower(), *args, ecut, **kw)
    if rng.random() < .4:
        q.T = float(rng.choice([300.0, 1000.0, rng.uniform(1, 30000)]))
    nk = None
    if rng.random() < .5:
        nk = tuple(int(x) for x in rng.integers(1, 9, size=4))
        q.set_multitasking_parameters(nk[0], nk[1], nk[2], nk[3])
    spec = dict(A=A, basis=basis, types=types, ecut=ecut, unit=unit, rel=kw.get("relativistic", False), T=q.T, name=q.name, par=nk or (1, 1, 1, 1), args=args)
    return q, spec


def judge_crystal(c, lists, cards, s, smearing=True):
    y = lists["system"]
    c.ok(y["ibrav"] == 0 and y["nat"] == len(s["types"]) and y["ntyp"] == len(set(s["types"])), "counts")
    c.ok(abs(y["ecutwfc"] - s["ecut"]) < 1e-9, "cut-off")
    if smearing:
        c.ok(y["occupations"] == "smearing", "occupations")
        if s["T"] == 0:
            c.ok(y["smearing"] == "marzari-vanderbilt" and y["degauss"] > 0, "smearing")
        else:
            c.ok(y["smearing"] == "fermi-dirac", "smearing")
            c.close(np.array(y["degauss"]), np.array(s["T"] * KB_RY), "temperature", rtol=1e-6)
    c.ok(bool(y.get("lspinorb", False)) == bool(y.get("noncolin", False)) == s["rel"], "relativistic")
    unit, rows = cards["CELL_PARAMETERS"]
    c.ok(unit == s["unit"], "cell-unit")
    c.close(np.array(rows, float), np.asarray(s["A"], float).T, "cell", rtol=1e-14)
    unit, rows = cards["ATOMIC_POSITIONS"]
    c.ok(unit == "crystal", "position-unit")
    c.ok([r[0] for r in rows] == s["types"], "atoms")
    c.close(np.array([r[1:] for r in rows], float), s["basis"], "positions", rtol=1e-14)
    rows = cards["ATOMIC_SPECIES"][1]
    c.ok(sorted(r[0] for r in rows) == sorted(set(s["types"])), "species")
    for r in rows:
        c.ok(abs(float(r[1]) - MASS[r[0]]) < .006 * MASS[r[0]], "masses", f"{r}")
        c.ok(r[2] == s["pp"][r[0]], "pseudopotentials")
    k = lists["control"]
    c.ok(k["prefix"] == s["name"] and k["outdir"] == "./qe-data/" and k["pseudo_dir"] == "./pseudo/", "prefix")


def judge_command(c, call, s, program, kind):
    cmd, files = call
    c.ok(f"{s['name']}.{kind}.in" in files, "input-before-run")
    c.ok(re.search(rf"(^|\s){program}\.x\b", cmd), "program", cmd)
    c.ok(re.search(rf"-in {re.escape(s['name'])}\.{kind}\.in\b", cmd) and cmd.rstrip().endswith(f"{s['name']}.{kind}.out"), "program-files", cmd)
    for f, v in (("nk", s["par"][0]), ("nd", s["par"][1]), ("nt", s["par"][3])):
        c.ok(re.search(rf"-{f} {v}\b", cmd), "program-parallel", cmd)


def gen_k(c, rng):
    """(argument, expected unit, expected rows or None)"""
    u = rng.random()
    if u < .35:
        n = [int(x) for x in rng.integers(1, 30, size=3)]
        m = int(rng.integers(1, 4))
        return qe.k_grid(*n[:m]), "automatic", (n[:m] + [n[0]] * 3)[:3]
    if u < .7:
        unit = str(rng.choice(["tpiba", "crystal", "tpiba_b", "crystal_b", "tpiba_c", "crystal_c"]))
        p = rng.uniform(-1, 1, size=(int(rng.integers(1, 30)), 3))
        if rng.random() < .3:
            p = p * 1e-6
        return qe.k_points(p if rng.random() < .5 else p.tolist(), unit), unit, p
    path, _, _ = gen_path(c, rng, 3)
    return path, "tpiba_b", None


def judge_k(c, cards, k):
    arg, unit, want = k
    u, rows = cards["K_POINTS"]
    c.ok(u == unit, "k-unit", f"{u} {unit}")
    if unit == "automatic":
        c.ok(len(rows) == 1 and [int(x) for x in rows[0]] == list(want) + [0, 0, 0], "k-grid", f"{rows} {want}")
    elif want is not None:
        c.ok(int(rows[0][0]) == len(want) == len(rows) - 1, "k-count")
        r = np.array(rows[1:], float)
        c.close(r[:, :3], want, "k-points", rtol=1e-14)
        c.ok(np.all(r[:, 3] == 1), "k-weights")
    else:
        c.ok(int(rows[0][0]) == len(arg) == len(rows) - 1, "k-count")


@contextlib.contextmanager
def environment(rng, s):
    old = dict(qe.pp_files)
    s["pp"] = {t: f"{t}.pbe-{rng.integers(99)}.UPF" for t in set(s["types"])}
    try:
        qe.pp_files.clear()
        qe.pp_files.update(s["pp"])
        with scratch(), quiet(), recorder() as calls:
            yield calls
    finally:
        qe.pp_files.clear()
        qe.pp_files.update(old)


@workload("C22", quick=300, thorough=4000)
def pw(c, rng):
    q, s = gen_crystal(rng)
    before = digest(s["args"])
    kind = str(rng.choice(["scf", "relax", "bands", "nscf", "nscf_nosym"]))
    c.event("input:" + kind)
    k = gen_k(c, rng)
    nb = int(rng.integers(1, 60))
    with environment(rng, s) as calls:
        state = digest(q)
        if kind == "scf":
            n = [int(x) for x in rng.integers(1, 20, size=3)]
            m = int(rng.integers(1, 4))
            q.scf(*n[:m])
            k = (None, "automatic", (n[:m] + [n[0]] * 3)[:3])
        elif kind == "relax":
            n = int(rng.integers(1, 9))
            fix = bool(rng.random() < .5)
            q.relax(n, fix_volume=fix)
            k = (None, "automatic", [n] * 3)
        elif kind == "bands":
            q.bands(nb, k[0])
        elif kind == "nscf":
            q.nscf(k[0], nb)
        else:
            q.nscf_nosym(k[0], nb)
        c.ok(digest(q) == state, "crystal-untouched")
    c.key(kind, s["A"], s["basis"], s["types"])
    ext = {"bands": "band", "nscf_nosym": "nscf"}.get(kind, kind)
    c.ok(len(calls) == 1, "one-run")
    judge_command(c, calls[0], s, "pw", ext)
    text = calls[0][1][f"{s['name']}.{ext}.in"]
    try:
        lists, cards = parse_qe(text)
    except Bad as e:
        c.ok(False, "well-formed", f"{kind}: {e}\n{text}")
    judge_crystal(c, lists, cards, s, smearing=kind != "bands")
    judge_k(c, cards, k)
    want = {"relax": "vc-relax", "nscf_nosym": "nscf"}.get(kind, kind)
    c.ok(lists["control"]["calculation"] == want, "calculation")
    if kind in ("bands", "nscf", "nscf_nosym"):
        c.ok(lists["system"]["nbnd"] == nb, "band-count")
    if kind == "nscf_nosym":
        c.ok(lists["system"].get("nosym") is True and lists["system"].get("noinv") is True, "no-symmetry")
    if kind == "relax":
        c.ok(lists["cell"]["cell_dofree"] == ("ibravshape" if fix else "ibrav"), "fixed-volume")
        c.close(np.array(float(lists["ions"]["tempw"])), np.array(s["T"]), "temperature", rtol=1e-9)
    c.ok(digest(s["args"]) == before, "arguments-untouched")


@workload("C22", quick=80, thorough=800)
def post(c, rng):
    """the post-processing inputs name the same run"""
    q, s = gen_crystal(rng)
    kind = str(rng.choice(["dos", "bandx", "projections", "dielectric", "overlaps", "wannier", "fs"]))
    c.key(kind, s["name"], s["par"], s["ecut"])
    c.event("post:" + kind)
    with environment(rng, s) as calls:
        if kind == "dos":
            q.dos()
            prog, ext, lst = "dos", "dos", "dos"
        elif kind == "bandx":
            q.bandx()
            prog, ext, lst = "bands", "bandx", "bands"
        elif kind == "projections":
            ov = bool(rng.random() < .5)
            q.projections(ov)
            prog, ext, lst = "projwfc", "projwfc", "projwfc"
        elif kind == "dielectric":
            nw = int(rng.integers(1, 999))
            q.dielectric_function(nw)
            prog, ext, lst = "epsilon", "epsilon", "inputpp"
        elif kind == "overlaps":
            sy = bool(rng.random() < .5)
            q.overlaps_for_wannier(sy)
            prog, ext, lst = "pw2wannier90", "pw2wan", "inputpp"
        elif kind == "wannier":
            q.wannier()
            c.ok(len(calls) == 1 and re.match(rf"wannier90\.x {re.escape(s['name'])}\b", calls[0][0]), "program", calls[0][0])
            return
        else:
            q.fermi_surface()
            prog, ext, lst = "fs", "fs", "fermi"
    cmd, files = calls[0]
    text = files[f"{s['name']}.{ext}.in"]
    try:
        lists, cards = parse_qe(text)
    except Bad as e:
        c.ok(False, "well-formed", f"{kind}: {e}\n{text}")
    l = lists[lst]
    c.ok(l["prefix"] == s["name"] and l["outdir"] == "./qe-data/" and not cards, "prefix")
    c.ok(re.search(rf"(^|\s){prog}\.x\b", cmd) and f"{s['name']}.{ext}.in" in cmd, "program", cmd)
    if kind == "dos":
        c.ok(l["fildos"] == s["name"] + ".Dos.dat", "output-file")
    if kind == "bandx":
        c.ok(l["filband"] == s["name"] + ".Bandx.dat", "output-file")
    if kind == "projections":
        c.ok(l["lwrite_overlaps"] is ov, "overlaps")
    if kind == "dielectric":
        c.ok(lists["energy_grid"]["nw"] == nw, "energy-grid")
    if kind == "overlaps":
        c.ok(l["seedname"] == s["name"] and bool(l.get("read_sym", False)) is sy and bool(l.get("write_dmn", False)) is sy, "wannier-interface")


@workload("C22", quick=150, thorough=1500)
def wannier(c, rng):
    run = Run(rng, name="ab")
    plot = rng.random() < .4
    n = int(rng.integers(1, 5))
    infer = rng.random() < .6
    if infer:
        g = np.stack(np.meshgrid(*[np.arange(n) / n] * 3, indexing="ij"), -1).reshape(-1, 3)
        run.k, run.nk = g, len(g)
        run.bands = np.sort(rng.normal(size=(run.nk, run.nb)), 1)
    run.lsda = False
    nb = run.bands.shape[1]
    unit = str(rng.choice(["angstrom", "bohr"]))
    q = qe.QECrystal("ab", np.eye(3), run.basis, run.types, 30.0, unit=unit)
    s = dict(types=run.types)
    wc = int(rng.integers(1, nb + 1)) if rng.random() < .5 else None
    gs = None if infer and rng.random() < .7 else (n if infer else int(rng.integers(1, 5)))
    A = run.A * (BOHR if unit == "angstrom" else 1)
    with environment(rng, s) as calls:
        os.makedirs("qe-data/ab.save")
        open("qe-data/ab.save/data-file-schema.xml", "w").write(run.xml())
        if plot:
            path, spec, _ = gen_path(c, rng, 3)
            An = rng.normal(size=(3, 3))
            np_ = None if rng.random() < .5 else int(rng.integers(2, 99))
            q.prepare_plot_wannier_bands(path, An, wannier_count=wc, grid_size=gs, bands_num_points=np_)
        else:
            sym = gs is not None and rng.random() < .3
            win, froz = np.sort(rng.normal(size=2) * 9), np.sort(rng.normal(size=2) * 5)
            proj = str(rng.choice(["random", "Cu:s;d", "f=0.25,0.25,0.25:sp3"]))
            ex = None if rng.random() < .6 else "1-3,7"
            tb, fn = bool(rng.random() < .5), bool(rng.random() < .5)
            it, dit = int(rng.integers(1, 999)), int(rng.integers(1, 999))
            q.prepare_wannier(tuple(win), tuple(froz), wannier_count=wc, grid_size=gs, iterations=it, disentangle_iterations=dit, projections=proj, exclude_bands=ex, symmetry=sym, write_tb=tb, write_wannier_functions=fn)
    c.key(A, run.basis, n, plot)
    c.event(f"wannier:{'plot' if plot else 'run'}")
    cmd, files = calls[0]
    c.ok(re.match(r"wannier90\.x .*\bab\b" if plot else r"wannier90\.x -pp ab\b", cmd), "program", cmd)
    try:
        kw, bl = parse_win(files["ab.win"])
    except Bad as e:
        c.ok(False, "well-formed", f"{e}\n{files['ab.win']}")
    c.ok(int(kw["num_bands"]) == nb and int(kw["num_wann"]) == (wc or nb), "band-count")
    c.ok(kw["length_unit"].strip("{} '").lower() == {"angstrom": "ang", "bohr": "bohr"}[unit], "length-unit", kw["length_unit"])
    u = bl["unit_cell_cart"]
    c.ok(u[0][0].lower().startswith(unit[:3]), "cell-unit")
    c.close(np.array(u[1:], float), A.T, "cell", rtol=3e-8)
    c.ok([r[0] for r in bl["atoms_frac"]] == run.types, "atoms")
    c.close(np.array([r[1:] for r in bl["atoms_frac"]], float), run.basis, "positions", rtol=1e-14)
    m = gs or n
    c.ok([int(x) for x in kw["mp_grid"].split()] == [m] * 3, "mp-grid")
    k = np.array(bl["kpoints"], float)
    c.ok(k.shape == (m**3, 3), "k-count")
    w = np.round((k % 1) * m) % m
    c.ok(np.abs(k * m - np.round(k * m)).max() < 1e-6 and len({tuple(x) for x in w}) == m**3, "k-grid")
    if gs is None:
        c.close(k, run.k, "k-points", atol=1e-9)
    if plot:
        kp = bl["kpoint_path"]
        c.ok(len(kp) == len(spec) - 1, "path-segments")
        pos = np.array([x[0] for x in spec]) @ An
        tok = [l for l in files["ab.win"].split("begin kpoint_path\n")[1].split("\nend kpoint_path")[0].split("\n")]
        for i, l in enumerate(tok):
            a, b = path.names[i], path.names[i + 1]
            rest = l
            for nm, p in ((a, pos[i]), (b, pos[i + 1])):
                c.ok(rest.startswith(nm + " "), "path-names", l)
                rest = rest[len(nm) + 1:]
                v = rest.split(" ")[:3]
                c.close(np.array(v, float), p, "path-points", rtol=1e-9, atol=1e-12)
                rest = " ".join(rest.split(" ")[3:])
            c.ok(not rest, "path-names", l)
        c.ok(int(kw["bands_num_points"]) == (np_ if np_ is not None else path.indices[1]) and kw["restart"] == "plot", "plot-points")
    else:
        c.close(np.array([float(kw["dis_win_min"]), float(kw["dis_win_max"])]), win, "window", rtol=1e-12)
        if not sym:
            c.close(np.array([float(kw["dis_froz_min"]), float(kw["dis_froz_max"])]), froz, "frozen-window", rtol=1e-12)
        c.ok(kw["site_symmetry"] == ("true" if sym else "false"), "site-symmetry")
        c.ok(bl["projections"] == [[proj]], "projections")
        c.ok(kw.get("exclude_bands") == ex, "excluded-bands", f"{kw.get('exclude_bands')}")
        c.ok((kw["write_tb"], kw["wannier_plot"]) == tuple("true" if x else "false" for x in (tb, fn)), "outputs")
        c.ok(int(kw["num_iter"]) == it and int(kw["dis_num_iter"]) == dit, "iterations")


@workload("C22", quick=200, thorough=2000)
def density(c, rng):
    q, s = gen_crystal(rng)
    A = np.asarray(s["A"], float)
    m = sum(MASS[t] for t in s["types"]) * U
    scale = 1e-10 if s["unit"] == "angstrom" else BOHR * 1e-10
    V = abs(np.linalg.det(A)) * scale**3
    c.key(A, s["types"])
    c.close(q.lattice_vectors_in_m(), A * scale, "metres", rtol=1e-8)
    c.close(np.array(q.mass_density()), np.array(m / V), "mass-density", rtol=6e-3)
    rel = q.mass_density() / (m / V)
    before = digest(s["args"])
    for _ in range(2):
        target = float(rng.uniform(.1, 30)) * 1e3
        A0 = np.array(q.A, float)
        r0 = q.mass_density()
        q.scale_to_density(target)
        c.close(np.array(q.mass_density()), np.array(target), "scaled-density", rtol=1e-9)
        c.close(np.asarray(q.A, float), A0 * (r0 / target)**(1 / 3), "uniform-scaling", rtol=1e-9)
    c.ok(digest(s["args"]) == before, "arguments-untouched")
    c.close(np.asarray(q.basis, float), s["basis"], "crystal-untouched", rtol=0)


@workload("C22", quick=100, thorough=1000)
def strings(c, rng):
    k = gen_k(c, rng)
    lists, cards = parse_qe(str(k[0]))
    c.key(str(k[0]))
    judge_k(c, cards, k)
    # names of orbitals sorted by weight
    n = int(rng.integers(1, 8))
    a = rng.normal(size=n) + 1j * rng.normal(size=n)
    th = float(rng.choice([.05, .5, 0.0]))
    names = [f"{i}Cu_s" for i in range(n)]
    with quiet() as out:
        qe.print_orbitals(a, names, threshold=th)
    w = np.abs(a)**2
    o = [i for i in np.argsort(-w) if w[i] >= th]
    want = ", ".join(f"{names[i]}: {w[i]:.1%}" for i in o) or "None"
    c.ok(out.getvalue() == want + "\n", "orbital-list", f"{out.getvalue()!r} {want!r}")


@workload("C22", quick=40, thorough=300)
def prepare(c, rng):
    """only the missing pseudopotentials are requested, the table is the given one"""
    types = [str(x) for x in rng.permutation(ELEMENTS)[:int(rng.integers(1, 5))]]
    files = {t: (f"{t}.pbe.{int(rng.integers(9))}.UPF" if rng.random() < .8 else None) for t in types}
    have = [t for t in types if files[t] and rng.random() < .4]
    given = dict(files)
    s = dict(types=types)
    with environment(rng, s) as calls:
        if have:
            os.mkdir("pseudo")
            for t in have:
                open("pseudo/" + files[t], "w").write("x")
        qe.qe_prepare(given)
        table = dict(qe.pp_files)
        c.ok(os.path.isdir("qe-data") and os.path.isdir("pseudo"), "directories")
        qe.pp_files = s["pp"]
    c.key(files, have)
    c.ok(set(table) == set(types) and all(table[t] == files[t] if files[t] else isinstance(table[t], str) and table[t].startswith(t + ".") for t in types), "table")
    want = sorted(table[t] for t in types if t not in have)
    got = sorted(cmd.split("/")[-1] for cmd, cwd in calls)
    c.ok(got == want and all(cwd == "./pseudo" for _, cwd in calls), "requests", f"{got} {want}")
