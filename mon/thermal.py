"""Independent Fermi-Dirac quadrature of the zero-temperature state counts that a DensityOfStates object reports."""
import numpy as np
import scipy.optimize as so
from scipy.special import expit
from tight_binding_redweasel.density_of_states import DensityOfStates
from .dosmodels import K, Plain, any_model, lattice, Cosines

k_B = 8.617333262e-5  # eV/K (CODATA)
SMEAR = ["cubes", "tetras", "spheres", "cubes+"]


class Own:
    """Stieltjes sums over every band's own range: dN_i(e) with a step to exactly 1 at the upper edge"""

    def __init__(self, d, n=1200):
        self.edges = [tuple(map(float, r)) for r in d.bands_range]
        self.e, self.n = [], []
        for i, (a, b) in enumerate(self.edges):
            if b - a < 1e-9:
                self.e.append(np.array([(a + b) / 2]))
                self.n.append(np.ones(1))
                continue
            t = np.linspace(0, 1, n)
            e = a + (b - a) * t * t * (3 - 2 * t)  # dense at the edges
            s = np.array([d.states_below_band(x, i) for x in e])
            s[0], s[-1] = 0, 1
            self.e.append((e[1:] + e[:-1]) / 2)
            self.n.append(np.diff(s))
        self.nb = len(self.edges)
        self.e = np.concatenate(self.e)
        self.n = np.concatenate(self.n)
        self.lo, self.hi = min(e[0] for e in self.edges), max(e[1] for e in self.edges)
        self.w = self.hi - self.lo

    def f(self, mu, T):
        return expit(-(self.e - mu) / (k_B * T)) if T > 0 else (self.e < mu) * 1.0

    def N(self, mu, T):
        return np.sum(self.n * self.f(mu, T))

    def E(self, mu, T):
        return np.sum(self.n * self.e * self.f(mu, T))

    def mu(self, el, T):
        return so.brentq(lambda m: self.N(m, T) - el, self.lo - 800 * k_B * T, self.hi + 800 * k_B * T, xtol=1e-14, rtol=1e-14)

    def dmu(self, el, T, h=1e-3):
        return (self.mu(el, T * (1 + h)) - self.mu(el, T * (1 - h))) / (2 * h * T)

    def C(self, el, T, h=1e-3):
        return (self.E(self.mu(el, T * (1 + h)), T * (1 + h)) - self.E(self.mu(el, T * (1 - h)), T * (1 - h))) / (2 * h * T)

    def gap(self, el):
        """(below, above) if el electrons leave a gap in the reported ranges, else None"""
        i = round(el)
        if i == el and 0 < i < self.nb:
            below = self.edges[i - 1][1]
            above = self.edges[i][0]
            if below < above:
                return below, above
        return None


def make(rng, nmax=4, N=None, smearing=None, model=None, n_own=1200, gap=None, own=True, **kw):
    """-> (crystal model, A, d, own, smearing)"""
    if model is None:
        if gap is None and rng.random() < .5:
            model = any_model(rng, nmax)
        else:
            model = Cosines(rng, n=int(rng.integers(2 if gap else 1, nmax + 1)), gap=gap)
    A = lattice(rng)
    sm = smearing or str(rng.choice(SMEAR))
    N = N or 2 * int(rng.integers(2, 6))
    f = K(model, A)
    if rng.random() < .4 and not kw.get("use_gradients"):
        f = Plain(f)
    d = DensityOfStates(f, N=N, A=A, smearing=sm, check=1e-6, **kw)
    return model, A, d, Own(d, n_own) if own else None, sm


def filling(rng, nb):
    u = rng.random()
    if u < .3 and nb > 1:
        return float(rng.integers(1, nb))
    if u < .4:
        return float(rng.uniform(.02, .1))
    if u < .5:
        return float(nb - rng.uniform(.02, .1))
    if u < .6:
        return float(np.clip(round(rng.uniform(0, nb) * 2) / 2, .5, nb - .5))
    return float(rng.uniform(.05, nb - .05))


def level(d, n, w):
    """own bisection of the reported state count: (energy below, energy above, count below, count above)"""
    a, b = d.energy_range()[0] - 1e-3 * w, max(r[1] for r in d.bands_range) + 1e-3 * w
    for _ in range(60):
        x = (a + b) / 2
        if d.states_below(x) > n:
            b = x
        else:
            a = x
    return a, b, d.states_below(a), d.states_below(b)


def jump(d, n, w):
    """is the filling n never reported because the count jumps over it (a sampling artefact of coarse grids at band edges)?"""
    a, b, na, nb = level(d, n, w)
    return nb - na > 1e-6
