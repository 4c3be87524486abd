"""C26: plots show the computed data, and a fit's log contains and prints what it was given (recorded matplotlib artists / streams)."""
import contextlib
import io
import os
import re
import numpy as np
from .core import workload, Skip, scratch
from .models import *
from .qegen import Run, HA
from tight_binding_redweasel import bandstructure, logger
from tight_binding_redweasel import qespresso_interface as qe


@contextlib.contextmanager
def figure():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    old = plt.get_fignums()
    try:
        yield plt
    finally:
        for n in plt.get_fignums():
            if n not in old:
                plt.close(n)


def ydata(l):
    return np.asarray(l.get_ydata(), float)


def xdata(l):
    return np.asarray(l.get_xdata(), float)


@workload("C26", quick=60, thorough=600)
def band_lines(c, rng):
    """one line per band over the samples, colours restart with every call"""
    dim = int(rng.integers(1, 4))
    nb = half_space(dim, {1: 2, 2: 1, 3: 1}[dim], rng, count=int(rng.integers(1, 4)))
    n = int(rng.integers(1, 8))
    H, _ = gen_params(rng, len(nb), n, "generic")
    m = bsm(nb, H, *MODES[int(rng.integers(4))])
    k = rng.uniform(-1, 1, size=(int(rng.integers(2, 12)), dim))
    ref = Ref.of(nb, H)
    want = ref.bands(k)
    c.key(k, H)
    with figure() as plt:
        fig = plt.figure()
        how = int(rng.integers(4))
        style = str(rng.choice(["-", ":", "o"]))
        if how == 0:
            m.plot_bands(k, style, lw=.7)
        elif how == 1:
            bandstructure.plot_bands_generic(k, want, style, lw=.7)
        else:
            x = np.sort(rng.uniform(size=len(k)))
            qe.plot_bands_generic(want, x if how == 3 else None, style, lw=.7)
        xs = np.arange(len(k)) if how != 3 else x
        if dim == 1 and how < 2:
            xs = k[:, 0]
        ls = fig.gca().get_lines()
        c.ok(len(ls) == n, "line-per-band", f"{len(ls)} {n}")
        for i, l in enumerate(ls):
            c.close(ydata(l), want[:, i], "line-is-band", rtol=1e-9, scale=ref.scale())
            c.close(xdata(l).ravel(), xs, "line-over-samples", atol=1e-12)
            c.ok(l.get_linewidth() == .7 and (l.get_marker() == "o" if style == "o" else l.get_linestyle() == style), "line-style")
        if how != 1:
            # a second model on top: band i has the same colour
            if how == 0:
                m.plot_bands(k, "--")
            else:
                qe.plot_bands_generic(want + 1, None, "--")
            ls = fig.gca().get_lines()
            c.ok(len(ls) == 2 * n and all(ls[i].get_color() == ls[n + i].get_color() for i in range(n)), "colour-is-band")
        c.event(f"lines:{how}")


@workload("C26", quick=40, thorough=400)
def qe_bands(c, rng):
    """bands of a run along a path, the separate bands (and only these) are separate lines; corners and the Fermi level are marked"""
    run = Run(rng, "ab")
    nk, nb = int(rng.integers(2, 12)), int(rng.integers(1, 6))
    x = np.concatenate([[0], np.cumsum(rng.uniform(.05, .3, size=nk - 1))]).round(4)
    e = np.sort(np.round(rng.uniform(-9, 9, size=(nk, nb)), 3), -1)
    sx = np.sort(rng.choice(x, size=int(rng.integers(1, nk + 1)), replace=False))
    with scratch(), figure() as plt:
        run.write()
        with open("ab.bandx.out", "w") as f:
            f.write("     Program BANDS v.7.3.1 starts\n")
            for s in sx:
                f.write(f"     high-symmetry point:  0.0000 0.5000 0.0000   x coordinate   {s:.4f}\n")
            f.write("\n     Plottable bands (eV) written to file ab.Bandx.dat.gnu\n")
        with open("ab.Bandx.dat.gnu", "w") as f:
            for j in range(nb):
                for a, b in zip(x, e[:, j]):
                    f.write(f"{a:10.4f}{b:10.4f}\n")
                f.write("\n")
        fig = plt.figure()
        q = qe.QECrystal("ab", np.eye(3), run.basis, run.types, 40.0)
        got = q.plot_bands()
        c.key(e, x)
        c.close(got, sx, "corner-positions", atol=1e-9)
        ax = fig.gca()
        segs = []
        for l in ax.get_lines():
            X, Y = xdata(l), ydata(l)
            if len(X) == 2 and list(X) == [0, 1] and Y[0] == Y[1]:
                c.close(Y[0], run.fermi * HA, "fermi-line", rtol=1e-6)
                c.event("fermi line")
                continue
            # split at points which can't be drawn
            cut = [-1] + list(np.nonzero(~np.isfinite(X + Y))[0]) + [len(X)]
            segs += [(X[a + 1:b], Y[a + 1:b]) for a, b in zip(cut[:-1], cut[1:]) if b - a > 1]
        c.ok(len(segs) == nb, "bands-are-separate-lines", f"{len(segs)} {nb}")
        for i, (X, Y) in enumerate(sorted(segs, key=lambda s: s[1].sum())):
            j = int(np.argmin([np.abs(Y - e[:, b]).max() if len(Y) == nk else np.inf for b in range(nb)]))
            c.ok(len(X) == nk, "band-line-length", f"{len(X)} {nk}")
            c.close(X, x, "band-line-x", atol=1e-9)
            c.close(Y, e[:, j], "band-line-y", atol=1e-9)
        v = [p.vertices for col in ax.collections for p in col.get_paths()]
        c.close(np.sort([p[0, 0] for p in v]), np.sort(sx), "corner-lines", atol=1e-9)
        c.close(np.array(ax.get_xlim()), np.array([x.min(), x.max()]), "x-range", atol=1e-9)
        if e.min() < e.max():
            c.close(np.array(ax.get_ylim()), np.array([e.min(), e.max()]), "y-range", atol=1e-9)
        # points of a wannier interpolation
        np.savetxt("ab_band.dat", np.stack([np.tile(x, nb), e.T.ravel()], -1))
        plt.figure()
        q.plot_wannier_bands()
        ls = plt.gca().get_lines()
        c.ok(len(ls) == 1, "wannier-points")
        c.close(xdata(ls[0]), np.tile(x, nb), "wannier-points-x", atol=1e-9)
        c.close(ydata(ls[0]), e.T.ravel(), "wannier-points-y", atol=1e-9)


@workload("C26", quick=30, thorough=250)
def crystals(c, rng):
    """every atom of the drawn cells is at its place, with the colour of its kind"""
    A = rng.normal(size=(3, 3)) + 2 * np.eye(3)
    n = int(rng.integers(1, 6))
    basis = rng.uniform(0, 1, size=(n, 3)) if rng.random() < .5 else rng.integers(0, 4, size=(n, 3)) / 4
    kinds = ["Cu", "Fe", "O"][:int(rng.integers(1, 4))]
    types = [str(rng.choice(kinds)) for _ in range(n)]
    rep = int(rng.choice([1, 1, 2, 3]))
    from mpl_toolkits.mplot3d import art3d
    with figure() as plt:
        q = qe.QECrystal("ab", A, basis, types, 40.0)
        q.plot_crystal(repeat=rep, turntable=float(rng.uniform(0, 90)), elevation=10)
        ax = plt.gcf().axes[0]
        off = np.array([(a, b, d) for a in range(-3, 4) for b in range(-3, 4) for d in range(-3, 4)])
        lines = [(l, np.array(l.get_data_3d(), float)) for l in ax.lines]
        lab = {l.get_label(): l for l, _ in lines if l.get_label() in kinds}
        c.ok(set(lab) == set(types), "kinds-labelled", f"{set(lab)} {set(types)}")
        c.ok(len(set(l.get_color() for l in lab.values())) == len(lab), "kinds-have-own-colour")
        c.key(A, basis, rep)
        for t in set(types):
            P = np.linalg.solve(A, np.array(lab[t].get_data_3d(), float)).T  # crystal coordinates of the drawn atoms
            b = basis[[x == t for x in types]]
            if rep == 1:
                full = (b[None] + off[:, None]).reshape(-1, 3)
                # atoms on the border may be on either side
                must = full[np.all((full > 1e-9) & (full < 1 - 1e-9), axis=1)]
                may = full[np.all((full > -1e-9) & (full < 1 + 1e-9), axis=1)]
            else:
                o = np.arange(rep) - (rep - 1) // 2
                must = may = (b[None] + np.array([(a, d, e) for a in o for d in o for e in o])[:, None]).reshape(-1, 3)
            dist = np.linalg.norm(P[:, None] - may[None], axis=-1) if len(P) else np.zeros((0, len(may)))
            c.ok(len(P) == 0 or dist.min(1).max() < 1e-7, "drawn-atoms-exist", f"{P} {may}")
            if len(must):
                dist = np.linalg.norm(P[:, None] - must[None], axis=-1)
                c.ok(len(P) > 0 and dist.min(0).max() < 1e-7, "atoms-are-drawn", f"{P} {must}")
            if rep == 1 and np.all((b % 1 < .999) & (b == b % 1)):
                c.ok(len(P) >= len(may[np.all(np.isin(may, [0, 1]) | ((may > 1e-9) & (may < 1 - 1e-9)), axis=1)]), "corner-atoms-are-drawn", f"{len(P)} {len(may)}")
            big = [d for l, d in lines if l.get_markersize() == 12 and l.get_color() == lab[t].get_color()]
            c.ok(len(big) == 1, "own-atoms-marked")
            B = np.linalg.solve(A, big[0]).T
            c.close(B[np.lexsort(np.round(B, 6).T)], b[np.lexsort(np.round(b, 6).T)], "own-atoms-at-basis", atol=1e-8)
        # the cell
        cell = [d for l, d in lines if d.shape[1] == 16 and l.get_linestyle() == "-"]
        c.ok(len(cell) == 1, "cell-drawn")
        C = np.linalg.solve(A, cell[0]).T
        c.close(C, np.round(C), "cell-corners", atol=1e-8)
        edges = {frozenset((tuple(np.round(p).astype(int)), tuple(np.round(r).astype(int)))) for p, r in zip(C[:-1], C[1:])}
        c.ok(len({tuple(x) for x in np.round(C).astype(int)}) == 8 and len(edges) == 12 and all(np.abs(np.subtract(*e)).sum() == 1 for e in edges), "cell-edges", f"{edges}")
        txt = {t.get_text(): np.array(t.get_position_3d()) for t in ax.texts}
        for i in range(3):
            c.close(txt[f"$a_{i+1}$"], A[:, i], "lattice-vector-labels", atol=1e-9)


@workload("C26", quick=80, thorough=800)
def logs(c, rng):
    """a log returns, counts, prints and plots the data that was added"""
    show, line, verbose = [bool(x) for x in rng.random(3) < .6]
    g = logger.OptimisationLogger(print_loss=show, update_line=line, verbose=verbose)
    count = bool(rng.random() < .4)
    g.count = count
    data, text = [], []
    out = io.StringIO()
    n = int(rng.integers(1, 9))
    it = 0
    with contextlib.redirect_stdout(out):
        for _ in range(int(rng.integers(1, 12))):
            if rng.random() < .25:
                s = f"message {rng.integers(1000)}"
                g.add_message(s)
                text.append(s)
                continue
            it += int(rng.integers(0, 4))
            loss = float(10 ** rng.uniform(-12, 3))
            err = 10 ** rng.uniform(-9, 3, size=n)
            if rng.random() < .1:
                err[int(rng.integers(n))] = 0.0 if n > 1 else 1.0
            if rng.random() < .06:
                loss, err = 0.0, np.zeros(n)  # a perfect fit
            g.add_data(it, loss, err)
            data.append((it, loss, err))
    s = out.getvalue()
    c.key(str(data), text, show, line, verbose)
    c.ok(list(g.loss) == [d[1] for d in data], "log-losses")
    c.ok(list(g.iterations) == (list(range(len(data))) if count else [d[0] for d in data]), "log-iterations", f"{g.iterations}")
    c.ok([x for x in g.stream if isinstance(x, str)] == text, "log-messages")
    rec = [x for x in g.stream if not isinstance(x, str)]
    c.ok(len(rec) == len(data) and all(a[0] == b[0] and a[1] == b[1] and np.array_equal(a[2], b[2]) for a, b in zip(rec, data)), "log-stream")
    c.ok(g.iteration_count() == (g.iterations[-1] if data else -1), "log-count")
    if data:
        c.ok(g.last_loss() == data[-1][1], "log-last")
    c.ok(all((t in s) == verbose for t in text), "messages-printed")
    got = re.findall(r"(\d+): loss\s*(\S+?e[+-]\d\d)\s*(\S+?e[+-]\d\d)×\[(.*?)\]", s)
    c.ok(len(got) == (len(data) if show else 0), "losses-printed", f"{len(got)} {len(data)} {s!r}")
    for r, (i, l, e) in zip(got, data):
        c.ok(int(r[0]) == i, "printed-iteration")
        c.close(float(r[1]), l, "printed-loss", rtol=6e-3)
        c.close(float(r[2]), e.max(), "printed-error", rtol=6e-2)
        c.ok(len(r[3]) == n and (r[3][int(np.argmax(e))] == "█" or e.max() == 0), "printed-bars", r[3])
        h = np.array([0 if ch == " " else ord(ch) - 0x2580 for ch in r[3]])
        c.ok(np.all(h == 0) if e.max() == 0 else np.all(np.abs(h - e / e.max() * 8) <= .5 + 1e-9), "bar-heights", f"{h} {e}")
    g.abort()
    c.ok(g.aborted, "abort")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            g.abort()
        c.ok(False, "abort-once")
    except ValueError:
        c.event("abort-once")
    if len(set(g.iterations)) > 1:
        with figure() as plt:
            fig = plt.figure()
            g.plot_loss("-o")
            ls = fig.gca().get_lines()
            c.ok(len(ls) == 1 and fig.gca().get_yscale() == "log", "loss-curve")
            c.close(xdata(ls[0]), np.array(g.iterations, float), "loss-curve-x", atol=0)
            c.close(ydata(ls[0]), np.array(g.loss), "loss-curve-y", rtol=0)
            c.close(np.array(fig.gca().get_xlim()), np.array([g.iterations[0], g.iterations[-1]], float), "loss-curve-range", atol=1e-9)


# plots of k-paths are judged here as well
from . import c20 as _c20  # noqa: E402
workload("C26", quick=60, thorough=400)(_c20.plots)
workload("C26", quick=20, thorough=150)(_c20.comparisons)
