"""Independent closed forms of the documented distribution families (no scipy.stats, no ondil).
theta is a tuple of scalars or arrays. Densities at atoms are the point masses."""
import numpy as np
from scipy import special as sp

LOG2PI = np.log(2 * np.pi)
EULER = 0.5772156649015329
INF = np.inf


def _where(cond, a, b):
    return np.where(cond, a, b)


class Law:
    name = ""
    params = ()
    lo, hi = -INF, INF  # open continuous support
    atoms = ()  # points with positive mass

    def __init__(self, name, n, lo, hi, logf, cdf, ppf, mean, atoms=(), mass=None):
        self.name, self.n, self.lo, self.hi = name, n, lo, hi
        self._logf, self._cdf, self._ppf, self._mean = logf, cdf, ppf, mean
        self.atoms, self.mass = tuple(atoms), mass

    def cont_weight(self, th):
        return 1.0 - sum(self.mass(a, th) for a in self.atoms) if self.atoms else 1.0

    def logpdf(self, y, *th):
        y = np.asarray(y, dtype=float)
        inside = (y > self.lo) & (y < self.hi)
        safe = np.where(inside, y, np.clip(0.5 if self.hi == 1 else 1.0, None, None))
        with np.errstate(all="ignore"):
            out = np.where(inside, self._logf(safe, *th) + np.log(self.cont_weight(th)), -INF)
            for a in self.atoms:
                out = np.where(y == a, np.log(self.mass(a, th)), out)
        return out

    def pdf(self, y, *th):
        return np.exp(self.logpdf(y, *th))

    def cdf(self, y, *th):
        y = np.asarray(y, dtype=float)
        inside = (y > self.lo) & (y < self.hi)
        safe = np.where(inside, y, 0.5 if self.hi == 1 else 1.0)
        with np.errstate(all="ignore"):
            c = np.where(inside, self._cdf(safe, *th), np.where(y >= self.hi, 1.0, 0.0)) * self.cont_weight(th)
            for a in self.atoms:
                c = c + np.where(y >= a, self.mass(a, th), 0.0)
        return c

    def ppf(self, q, *th):
        q = np.asarray(q, dtype=float)
        with np.errstate(all="ignore"):
            below = 0.0
            for a in self.atoms:
                if a <= self.lo:
                    below = below + self.mass(a, th)
            cw = self.cont_weight(th)
            u = (q - below) / cw
            out = self._ppf(np.clip(u, 0.0, 1.0), *th)
            for a in self.atoms:
                if a <= self.lo:
                    out = np.where(q <= below, a, out)
                else:
                    out = np.where(q >= below + cw, a, out)
        return np.where((q < 0) | (q > 1), np.nan, out)

    def mean(self, *th):
        with np.errstate(all="ignore"):
            m = self._mean(*th) * self.cont_weight(th)
            for a in self.atoms:
                m = m + a * self.mass(a, th)
        return m


def _ab(mu, s):
    k = (1 - s**2) / s**2
    return mu * k, (1 - mu) * k


def _norm_logf(y, m, s):
    return -0.5 * ((y - m) / s) ** 2 - np.log(s) - 0.5 * LOG2PI


def _beta_logf(y, m, s, *_):
    a, b = _ab(m, s)
    return (a - 1) * np.log(y) + (b - 1) * np.log1p(-y) - sp.betaln(a, b)


def _beta_cdf(y, m, s, *_):
    return sp.betainc(*_ab(m, s), y)


def _beta_ppf(u, m, s, *_):
    return sp.betaincinv(*_ab(m, s), u)


def _ga_logf(y, m, s, *_):
    a, sc = 1 / s**2, m * s**2
    return (a - 1) * np.log(y) - y / sc - a * np.log(sc) - sp.gammaln(a)


def _ga_cdf(y, m, s, *_):
    return sp.gammainc(1 / s**2, y / (m * s**2))


def _ga_ppf(u, m, s, *_):
    return sp.gammaincinv(1 / s**2, u) * m * s**2


def _ig_cdf(y, m, s):
    lam = 1 / s**2
    r = np.sqrt(lam / y)
    return sp.ndtr(r * (y / m - 1)) + np.exp(2 * lam / m + sp.log_ndtr(-r * (y / m + 1)))


def _ig_ppf(u, m, s):
    u, m, s = np.broadcast_arrays(np.asarray(u, float), m, s)
    lo = np.full(u.shape, -40.0)
    hi = np.full(u.shape, 12.0)
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        c = _ig_cdf(np.exp(mid), m, s) < u
        lo, hi = np.where(c, mid, lo), np.where(c, hi, mid)
    return np.where(u <= 0, 0.0, np.where(u >= 1, INF, np.exp(0.5 * (lo + hi))))


def _t_logf(y, m, s, v):
    z = (y - m) / s
    return sp.gammaln((v + 1) / 2) - sp.gammaln(v / 2) - 0.5 * np.log(v * np.pi) - np.log(s) - (v + 1) / 2 * np.log1p(z * z / v)


def _jsu_logf(y, m, s, a, b):
    u = (y - m) / s
    z = a + b * np.arcsinh(u)
    return np.log(b) - np.log(s) - 0.5 * np.log1p(u * u) - 0.5 * z * z - 0.5 * LOG2PI


def _logis_logf(y, m, s):
    z = np.abs((y - m) / s)
    return -z - np.log(s) - 2 * np.log1p(np.exp(-z))


LAWS = {}


def _add(*a, **k):
    law = Law(*a, **k)
    LAWS[law.name] = law


_add("Normal", 2, -INF, INF, _norm_logf, lambda y, m, s: sp.ndtr((y - m) / s), lambda u, m, s: m + s * sp.ndtri(u), lambda m, s: m + 0 * s)
_add(
    "NormalMeanVariance", 2, -INF, INF,
    lambda y, m, v: _norm_logf(y, m, np.sqrt(v)), lambda y, m, v: sp.ndtr((y - m) / np.sqrt(v)),
    lambda u, m, v: m + np.sqrt(v) * sp.ndtri(u), lambda m, v: m + 0 * v,
)
_add("StudentT", 3, -INF, INF, _t_logf, lambda y, m, s, v: sp.stdtr(v, (y - m) / s), lambda u, m, s, v: m + s * sp.stdtrit(v, u), lambda m, s, v: np.where(np.asarray(v) > 1, m + 0 * s, np.nan))  # no mean with one degree of freedom or fewer
_add(
    "JSU", 4, -INF, INF, _jsu_logf, lambda y, m, s, a, b: sp.ndtr(a + b * np.arcsinh((y - m) / s)),
    lambda u, m, s, a, b: m + s * np.sinh((sp.ndtri(u) - a) / b), lambda m, s, a, b: m - s * np.exp(0.5 / b**2) * np.sinh(a / b),
)
_add("Gamma", 2, 0.0, INF, _ga_logf, _ga_cdf, _ga_ppf, lambda m, s: m + 0 * s)
_add("Beta", 2, 0.0, 1.0, _beta_logf, _beta_cdf, _beta_ppf, lambda m, s: m + 0 * s)
_add(
    "BetaInflated", 4, 0.0, 1.0, _beta_logf, _beta_cdf, _beta_ppf, lambda m, s, v, t: m + 0 * s, atoms=(0.0, 1.0),
    mass=lambda a, th: (th[2] if a == 0 else th[3]) / (1 + th[2] + th[3]),
)
_add("BetaInflatedZero", 3, 0.0, 1.0, _beta_logf, _beta_cdf, _beta_ppf, lambda m, s, v: m + 0 * s, atoms=(0.0,), mass=lambda a, th: th[2] / (1 + th[2]))
_add("ZeroAdjustedGamma", 3, 0.0, INF, _ga_logf, _ga_cdf, _ga_ppf, lambda m, s, v: m + 0 * s, atoms=(0.0,), mass=lambda a, th: th[2])
_add(
    "LogNormal", 2, 0.0, INF, lambda y, m, s: _norm_logf(np.log(y), m, s) - np.log(y), lambda y, m, s: sp.ndtr((np.log(y) - m) / s),
    lambda u, m, s: np.exp(m + s * sp.ndtri(u)), lambda m, s: np.exp(m + s**2 / 2),
)
_add(
    "LogNormalMedian", 2, 0.0, INF, lambda y, m, s: _norm_logf(np.log(y), np.log(m), s) - np.log(y), lambda y, m, s: sp.ndtr((np.log(y) - np.log(m)) / s),
    lambda u, m, s: m * np.exp(s * sp.ndtri(u)), lambda m, s: m * np.exp(s**2 / 2),
)
_add("Logistic", 2, -INF, INF, _logis_logf, lambda y, m, s: sp.expit((y - m) / s), lambda u, m, s: m + s * sp.logit(u), lambda m, s: m + 0 * s)
_add("Exponential", 1, 0.0, INF, lambda y, m: -y / m - np.log(m), lambda y, m: -np.expm1(-y / m), lambda u, m: -m * np.log1p(-u), lambda m: m + 0)
_add(
    "Gumbel", 2, -INF, INF, lambda y, m, s: (y - m) / s - np.exp((y - m) / s) - np.log(s), lambda y, m, s: -np.expm1(-np.exp((y - m) / s)),
    lambda u, m, s: m + s * np.log(-np.log1p(-u)), lambda m, s: m - EULER * s,
)
_add(
    "ReverseGumbel", 2, -INF, INF, lambda y, m, s: -(y - m) / s - np.exp(-(y - m) / s) - np.log(s), lambda y, m, s: np.exp(-np.exp(-(y - m) / s)),
    lambda u, m, s: m - s * np.log(-np.log(u)), lambda m, s: m + EULER * s,
)
_add(
    "InverseGaussian", 2, 0.0, INF,
    lambda y, m, s: -0.5 * np.log(2 * np.pi * s**2 * y**3) - (y - m) ** 2 / (2 * m**2 * s**2 * y), _ig_cdf, _ig_ppf, lambda m, s: m + 0 * s,
)


def _igam(m, s):
    return 1 / s**2, m * (1 + s**2) / s**2


def _igam_logf(y, m, s):
    a, c = _igam(m, s)
    return a * np.log(c) - sp.gammaln(a) - (a + 1) * np.log(y) - c / y


_add(
    "InverseGamma", 2, 0.0, INF, _igam_logf, lambda y, m, s: sp.gammaincc(_igam(m, s)[0], _igam(m, s)[1] / y),
    lambda u, m, s: _igam(m, s)[1] / sp.gammainccinv(_igam(m, s)[0], u), lambda m, s: np.where(s < 1, m * (1 + s**2) / (1 - s**2), INF),
)

# value lattices per parameter role
REAL = (-3.0, 0.0, 1.7)
POS = (0.3, 1.0, 2.6)
UNIT = (0.1, 0.5, 0.85)
SHAPE01 = (0.15, 0.5, 0.9)
DF = (1.5, 4.0, 30.0)
GRID = {
    "Normal": (REAL, POS), "NormalMeanVariance": (REAL, POS), "StudentT": (REAL, POS, DF), "JSU": (REAL, POS, (-0.8, 0.0, 1.1), (0.7, 1.5, 3.0)),
    "Gamma": (POS, (0.08, 0.3, 1.0, 1.6)), "Beta": (UNIT, SHAPE01), "BetaInflated": (UNIT, SHAPE01, (0.1, 1.0, 3.0), (0.1, 1.0, 3.0)),
    "BetaInflatedZero": (UNIT, SHAPE01, (0.1, 1.0, 3.0)), "ZeroAdjustedGamma": (POS, (0.08, 0.3, 1.0, 1.6), (0.05, 0.4, 0.9)),
    "LogNormal": ((-1.0, 0.0, 1.2), (0.2, 0.7, 1.5)), "LogNormalMedian": (POS, (0.2, 0.7, 1.5)), "Logistic": (REAL, POS), "Exponential": (POS,),
    "Gumbel": (REAL, POS), "ReverseGumbel": (REAL, POS), "InverseGaussian": (POS, (0.2, 0.7, 1.4)), "InverseGamma": (POS, (0.2, 0.5, 0.8)),
}

# extremes added to one parameter at a time (star points around the centre of the lattice)
EXTREME = {
    "Normal": ((-2e4, 1e5), (1e-3, 300.0)), "NormalMeanVariance": ((-2e4, 1e5), (1e-3, 300.0)), "StudentT": ((-500.0, 3e3), (1e-2, 60.0), (0.6, 2.0, 120.0)),
    "JSU": ((-200.0, 900.0), (0.02, 40.0), (-3.0, 4.0), (0.5, 6.0)), "Gamma": ((1e-3, 800.0), (0.03, 2.5)), "Beta": ((0.01, 0.99), (0.04, 0.96)),
    "BetaInflated": ((0.01, 0.99), (0.04, 0.96), (1e-3, 40.0), (1e-3, 40.0)), "BetaInflatedZero": ((0.01, 0.99), (0.04, 0.96), (1e-3, 40.0)),
    "ZeroAdjustedGamma": ((1e-3, 800.0), (0.03, 2.5), (1e-3, 0.999)), "LogNormal": ((-6.0, 6.0), (0.02, 2.5)), "LogNormalMedian": ((1e-3, 500.0), (0.02, 2.5)),
    "Logistic": ((-500.0, 3e3), (1e-2, 60.0)), "Exponential": ((1e-4, 5e3),), "Gumbel": ((-500.0, 3e3), (1e-2, 60.0)), "ReverseGumbel": ((-500.0, 3e3), (1e-2, 60.0)),
    "InverseGaussian": ((0.02, 40.0), (0.05, 2.5)), "InverseGamma": ((1e-3, 500.0), (0.05, 0.97)),
}


def _between(k, lo, hi, n=11):
    """n values between the extremes of a parameter: geometric for positive ones, symmetric-geometric for real ones."""
    if hi < 1 and lo < 1:  # probabilities and the like: through the logit
        return [float(sp.expit(v)) for v in np.linspace(sp.logit(lo), sp.logit(hi), n)[1:-1]]
    if lo > 0:
        return [float(v) for v in np.geomspace(lo, hi, n)[1:-1]]
    return [float(v) for v in np.sinh(np.linspace(np.arcsinh(lo), np.arcsinh(hi), n))[1:-1]]


SPECIAL = {"StudentT": {2: (1.0, 3.0, 5.0, 10.0, 25.0, 31.0, 50.0, 101.0)}, "InverseGamma": {1: (0.7071067811865476, 0.9)}, "Gamma": {1: (1.0, 0.5773502691896258, 2.0)},
           "JSU": {2: (0.5, -0.1), 3: (1.0, 2.0)}, "Beta": {0: (0.5,), 1: (0.7071067811865476, 0.5773502691896258)}}


def star(name):
    centre = [v[len(v) // 2] for v in GRID[name]]
    out = []
    for k, vals in enumerate(EXTREME[name]):
        for v in list(vals) + _between(k, min(vals), max(vals)) + list(SPECIAL.get(name, {}).get(k, ())):
            th = list(centre)
            th[k] = v
            out.append(tuple(th))
    for a in range(len(centre)):
        for b in range(a + 1, len(centre)):
            va, vb = (_between(k, min(EXTREME[name][k]), max(EXTREME[name][k]), 8)[1:-1] for k in (a, b))
            for x in va:
                for z in vb:
                    th = list(centre)
                    th[a], th[b] = x, z
                    out.append(tuple(th))
    return out


# values far out, for one parameter at a time (distribution functions only)
FAR = {
    "Normal": ((-1e9, 1e9), (1e-8, 1e8)), "NormalMeanVariance": ((-1e9, 1e9), (1e-10, 1e10)), "StudentT": ((-1e8, 1e8), (1e-7, 1e7), (0.3, 300.0, 2e3, 1e4, 1e6)),
    "JSU": ((-1e7, 1e7), (1e-6, 1e6), (-8.0, 9.0), (0.3, 12.0)), "Gamma": ((1e-8, 1e8), (0.01, 4.0)), "Beta": ((1e-4, 0.9999), (0.01, 0.99)),
    "BetaInflated": ((1e-4, 0.9999), (0.01, 0.99), (1e-7, 1e5), (1e-7, 1e5)), "BetaInflatedZero": ((1e-4, 0.9999), (0.01, 0.99), (1e-7, 1e5)),
    "ZeroAdjustedGamma": ((1e-8, 1e8), (0.01, 4.0), (1e-7, 1 - 1e-7)), "LogNormal": ((-20.0, 20.0), (1e-4, 5.0)), "LogNormalMedian": ((1e-8, 1e8), (1e-4, 5.0)),
    "Logistic": ((-1e8, 1e8), (1e-7, 1e7)), "Exponential": ((1e-9, 1e9),), "Gumbel": ((-1e8, 1e8), (1e-7, 1e7)), "ReverseGumbel": ((-1e8, 1e8), (1e-7, 1e7)),
    "InverseGaussian": ((1e-4, 60.0), (0.005, 8.0)), "InverseGamma": ((1e-8, 1e8), (0.01, 0.999)),
}


def far(name):
    centre = [v[len(v) // 2] for v in GRID[name]]
    return [tuple(centre[:k] + [v] + centre[k + 1 :]) for k, vals in enumerate(FAR[name]) for v in vals]
