"""C09: likelihood derivatives against the independent closed-form laws."""
import itertools

import numpy as np

from . import laws
from .c08 import QS, grid
from .util import close, raises

import ondil.distributions as D

ASSUMPTIONS = [
    "parameter lattice laws.GRID; first derivatives compared with fourth-order differences of an independently written log-density",
    "expectations by composite Gauss-Legendre quadrature in the probability variable (error below 1e-6), point masses added exactly; tolerance 1e-5 of the information scale",
]


def BOUNDS(tier):
    return "17 families x full product of parameter lattices (finer at thorough) x every parameter and every ordered pair of parameters x 14 quantile-spaced arguments, tails and atoms; all invalid parameter numbers; every row alone vs in a batch"


def cases(tier):
    for name in laws.LAWS:
        g = grid(name, tier)
        for s in range(0, len(g), 6):
            yield ("deriv", name, g[s : s + 6])
        for th in laws.far(name):
            yield ("deriv", name, [th])
        yield ("rows", name)
        yield ("invalid", name)


def run_case(case, ctx):
    return globals()["case_" + case[0]](case, ctx)


def fd(L, y, th, k, h):
    def f(d):
        t = list(th)
        t[k] = t[k] + d
        return L.logpdf(y, *t)

    return (-f(2 * h) + 8 * f(h) - 8 * f(-h) + f(-2 * h)) / (12 * h)


def step(name, th, k, L):
    """A step that is small compared to the parameter and to the spread of the law, and keeps theta +- 2h in range."""
    t = th[k]
    if min(laws.GRID[name][k]) > 0:
        h = 2e-4 * (t if max(laws.FAR[name][k]) > 1 else min(t, 1 - t))
        return h * (min(1.0, 5 * th[1]) if k == 0 and L.n > 1 else 1.0)
    if k == 0:  # a location
        return 1e-4 * (th[1] ** 0.5 if name == "NormalMeanVariance" else th[1])
    return 2e-4 * max(abs(t), 0.1)


def dref(L, y, th, k):
    h = step(L.name, th, k, L)
    a, b = fd(L, y, th, k, h), fd(L, y, th, k, h / 2)
    return b, np.abs(a - b)


def points(L, th):
    ys = [float(L.ppf(q, *th)) for q in (1e-6, 1e-3, 0.01, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99, 0.999, 1 - 1e-6)]
    ys = [y for y in ys if L.lo < y < L.hi]
    med = float(L._ppf(0.5, *th))
    spread = float(L._ppf(0.75, *th) - L._ppf(0.25, *th))
    extra = [0.0, 1e-3 * (0.1 if L.hi == 1 else 1.0)] + [4.0] * (L.hi == np.inf) + [-4.0] * (L.lo == -np.inf)
    ys += [med + e for e in extra if abs(e) <= 50 * spread]
    return np.array([y for y in ys if L.lo < y < L.hi] + list(L.atoms))


def nodes():
    e = np.logspace(-14, np.log10(0.5), 90)
    edges = np.concatenate([[0.0], e, (1 - e[::-1])[1:], [1.0]])
    edges = np.unique(edges)
    g, w = np.polynomial.legendre.leggauss(10)
    d = np.diff(edges)[:, None]
    u = (edges[:-1, None] + d * (g[None] + 1) / 2).ravel()
    ws = (d * w[None] / 2).ravel()
    ok = (u > 0) & (u < 1)
    return u[ok], ws[ok]


U, W = nodes()


def beta_information(mu, s):
    """Fisher information of the beta law in (mu, sigma) from its exponential-family form."""
    from scipy.special import polygamma

    a, b = laws._ab(mu, s)
    t = polygamma(1, a + b)
    I = np.array([[polygamma(1, a) - t, -t], [-t, polygamma(1, b) - t]])
    J = np.zeros((2, 2))
    for k, h in enumerate((1e-5, 1e-5)):
        d = np.zeros(2)
        d[k] = h * 0.1
        J[:, k] = (np.array(laws._ab(mu + d[0], s + d[1])) - np.array(laws._ab(mu - d[0], s - d[1]))) / (2 * d[k])
    return J.T @ I @ J


def case_deriv(case, ctx):
    _, name, thetas = case
    L = laws.LAWS[name]
    d = getattr(D, name)()
    P = d.n_params
    if P != L.n:
        return ctx.fail("n_params", f"{name}: {P} parameters")
    for th in thetas:
        ys = points(L, th)
        T = np.tile(np.array(th, dtype=float), (len(ys), 1))
        for k in range(P):
            got = np.asarray(d.dl1_dp1(ys, T, param=k))
            if got.shape != ys.shape:
                return ctx.fail("shape", f"{name} dl1_dp1 param {k}: shape {got.shape}")
            ref, err = dref(L, ys, th, k)
            ctx.step(len(ys))
            for i, y in enumerate(ys):
                ctx.state(name, th, k, y)
                if not abs(got[i] - ref[i]) <= 2e-6 * (abs(ref[i]) + 1e-2) + 20 * err[i]:
                    return ctx.fail("dl1", f"{name}{th} dl1_dp1(y={y!r}, param={k}) = {got[i]!r}, derivative of the log-density {ref[i]!r}")
            ctx.trace()
        # quadrature nodes of the continuous part, then atoms
        cont = L._ppf(U, *th)
        ok = (cont > L.lo) & (cont < L.hi) & np.isfinite(cont)
        y = np.concatenate([cont[ok], np.array(L.atoms, dtype=float)])
        p = np.concatenate([W[ok] * L.cont_weight(th), np.array([L.mass(a, th) for a in L.atoms], dtype=float)])
        p[: int(ok.sum())] *= L.cont_weight(th) / p[: int(ok.sum())].sum()
        T = np.tile(np.array(th, dtype=float), (len(y), 1))
        s = [np.asarray(d.dl1_dp1(y, T, param=k)) * np.ones(len(y)) for k in range(P)]
        info = np.array([[np.sum(p * s[i] * s[j]) for j in range(P)] for i in range(P)])
        ctx.step(len(y) * P)
        beta = L.hi == 1
        if beta:  # mass closer to one than doubles resolve: exact information of the beta part, renormalised weights
            info[:2, :2] = L.cont_weight(th) * beta_information(*th[:2])
            if P > 2:
                info[:2, 2:] = info[2:, :2] = 0.0
        for k in range(P):
            sc = np.sqrt(info[k, k])
            m = np.sum(p * s[k])
            if not (beta and k < 2) and not abs(m) <= 1e-5 * (1 + sc):
                return ctx.fail("score-mean", f"{name}{th}: expected score of parameter {k} is {m}")
            h = np.asarray(d.dl2_dp2(y, T, param=k)) * np.ones(len(y))
            if np.any(~(h <= 1e-12)):
                return ctx.fail("dl2-positive", f"{name}{th}: dl2_dp2 param {k} reaches {np.nanmax(h)} at y={y[np.nanargmax(h)]}")
            e = np.sum(p * h)
            ctx.trace()
            if not abs(e + info[k, k]) <= 2e-5 * info[k, k] + 1e-9:
                return ctx.fail("dl2", f"{name}{th}: E[dl2_dp2] param {k} = {e}, -E[score^2] = {-info[k, k]}")
        for i, j in itertools.permutations(range(P), 2):
            h = np.asarray(d.dl2_dpp(y, T, params=(i, j))) * np.ones(len(y))
            e = np.sum(p * h)
            ctx.trace()
            ctx.step(len(y))
            scale = np.sqrt(info[i, i] * info[j, j])
            if not abs(e + info[i, j]) <= 2e-5 * scale + 1e-9:
                if name == "ReverseGumbel" and np.allclose(h, -0.422784 / th[1] ** 2, rtol=1e-5, atol=0):
                    ctx.fail("ReverseGumbel.dl2_dpp=-0.422784/sigma^2", f"{name}{th}: E[dl2_dpp] {(i, j)} = {e}, -E[score product] = {-info[i, j]}")
                    continue
                return ctx.fail("dl2_dpp", f"{name}{th}: E[dl2_dpp] {(i, j)} = {e}, -E[score product] = {-info[i, j]}")
            if not close(h, np.asarray(d.dl2_dpp(y, T, params=(j, i))) * np.ones(len(y)), 1e-12, 1e-12):
                return ctx.fail("dl2_dpp-order", f"{name}{th}: parameters {(i, j)} and {(j, i)} differ")
        ctx.outcome(name, th)


def case_rows(case, ctx):
    _, name = case
    L = laws.LAWS[name]
    d = getattr(D, name)()
    g = grid(name, "rows")
    T = np.array(g, dtype=float)
    n = len(g)
    q = np.resize(np.array([0.02, 0.3, 0.5, 0.77, 0.98]), n)
    y = np.array([float(L.ppf(a, *t)) for a, t in zip(q, g)])
    P = d.n_params
    calls = [("dl1_dp1", {"param": k}) for k in range(P)] + [("dl2_dp2", {"param": k}) for k in range(P)]
    calls += [("dl2_dpp", {"params": pr}) for pr in itertools.permutations(range(P), 2)]
    for fn, kw in calls:
        full = np.asarray(getattr(d, fn)(y, T, **kw))
        if full.shape != (n,):
            return ctx.fail("row-shape", f"{name}.{fn}{kw}: {full.shape}")
        for i in range(n):
            one = np.asarray(getattr(d, fn)(y[i : i + 1], T[i : i + 1], **kw))
            ctx.step()
            if not close(one, full[i : i + 1], 1e-9, 1e-12):
                return ctx.fail("row", f"{name}.{fn}{kw} row {i}: alone {one} in batch {full[i]}")
        for m in (130, 1100, 2500):
            many = np.asarray(getattr(d, fn)(np.resize(y, m), np.resize(T, (m, T.shape[1])), **kw))
            ctx.step()
            if many.shape != (m,) or not close(many, np.resize(full, m), 1e-9, 1e-12):
                return ctx.fail("row", f"{name}.{fn}{kw}: {m} rows differ from the rows alone")
        ctx.trace()


def case_invalid(case, ctx):
    _, name = case
    d = getattr(D, name)()
    L = laws.LAWS[name]
    th = grid(name, "rows")[0]
    y = np.array([float(L._ppf(0.5, *th))])
    T = np.array([th], dtype=float)
    P = d.n_params
    for k in (-2, -1, P, P + 1, P + 7):
        for fn in ("dl1_dp1", "dl2_dp2"):
            ctx.step()
            ctx.trace()
            if not raises(ValueError, getattr(d, fn), y, T, param=k):
                return ctx.fail("invalid", f"{name}.{fn}(param={k}) did not raise ValueError")
        for pr in ((0, k), (k, 0)):
            ctx.step()
            ctx.trace()
            if not raises(ValueError, d.dl2_dpp, y, T, params=pr):
                return ctx.fail("invalid-pair", f"{name}.dl2_dpp(params={pr}) did not raise ValueError")
    for k in range(P):
        ctx.step()
        ctx.trace()
        if not raises(ValueError, d.dl2_dpp, y, T, params=(k, k)):
            return ctx.fail("equal-pair", f"{name}.dl2_dpp(params={(k, k)}) did not raise ValueError")
