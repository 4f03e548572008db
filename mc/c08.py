"""C08: density, distribution function, quantiles and moments of each family describe one law."""
import itertools

import numpy as np
from scipy import special as sp

from . import laws
from .util import close

import ondil.distributions as D

ASSUMPTIONS = [
    "parameters range over the product lattice laws.GRID; arguments over quantile-spaced, boundary, atom, far-tail and out-of-support points",
    "probabilities between 1e-9 and 1-1e-6 besides 0 and 1 (scipy's inverse Gaussian quantile itself fails at 1e-12)",
    "random draws: shape and support exactly, law by a Kolmogorov distance bound far above the sampling error",
]


def BOUNDS(tier):
    return "all 17 families x full product of per-parameter lattices (finer at thorough) x 25-40 arguments x 17 probabilities; scalar, vector, column and matrix arguments; every row alone vs in batch"


QS = (1e-9, 1e-6, 1e-3, 0.01, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99, 0.999, 1 - 1e-6)


def grid(name, tier):
    g = laws.GRID[name]
    fr = {"rows": (), "quick": (0.5,), "thorough": (0.25, 0.5, 0.75)}[tier]
    if tier == "thorough" and len(g) == 4:
        fr = (0.5,)
    g = [tuple(sorted({a + f * (b - a) for a, b in zip(sorted(v), sorted(v)[1:]) for f in fr} | set(v))) for v in g]
    return list(itertools.product(*g)) + laws.star(name)


def cases(tier):
    for name in laws.LAWS:
        g = grid(name, tier)
        step = 9
        for s in range(0, len(g), step):
            yield ("law", name, g[s : s + step])
        for th in laws.far(name):
            yield ("law", name, [th])
        yield ("rows", name, tier)
        yield ("rvs", name, tier)


def run_case(case, ctx):
    return globals()["case_" + case[0]](case, ctx)


def _args(L, th):
    ys = [float(L.ppf(q, *th)) for q in QS]
    ys += [y + d for y in ys[3:10:3] for d in (1e-4, -1e-4) if L.lo < y + d < L.hi]
    ys = [y for y in ys if np.isfinite(y) and L.lo < y < L.hi]
    if L.lo == 0:
        ys += [1e-30, 1e-8]
    if L.hi == INF:
        ys += [50.0, 400.0, 1e6]
    if L.lo == -INF:
        ys += [-40.0, -300.0]
    if L.hi == 1:
        ys += [1 - 1e-12]
    elif not L.atoms:  # many spreads out, where densities and distribution functions underflow
        c = float(L.ppf(0.5, *th))
        s = float(L.ppf(0.84, *th)) - c
        ys += [c + k * s for k in (12.0, 41.0, 150.0)] + ([c - k * s for k in (12.0, 41.0, 150.0)] if L.lo == -INF else [c * 1e-2, c * 1e-5])
    return ys + list(L.atoms)


INF = np.inf


def _outside(L):
    out = []
    if L.lo == 0:
        out += [-1e-300, -0.3, -50.0, -INF]
    if L.hi == 1:
        out += [1.0 + 1e-12, 1.7, 30.0, INF]
        if 1.0 not in L.atoms and L.atoms:
            out += [1.0]
    return out


def lclose(a, b, rtol=1e-7, atol=1e-9):
    return close(a, b, rtol, atol)


# log distribution functions that stay exact where the distribution function itself underflows
LOGCDF = {
    "Normal": lambda y, m, s: sp.log_ndtr((y - m) / s), "NormalMeanVariance": lambda y, m, v: sp.log_ndtr((y - m) / np.sqrt(v)),
    "LogNormal": lambda y, m, s: sp.log_ndtr((np.log(y) - m) / s), "LogNormalMedian": lambda y, m, s: sp.log_ndtr((np.log(y) - np.log(m)) / s),
    "Logistic": lambda y, m, s: sp.log_expit((y - m) / s), "Gumbel": lambda y, m, s: np.log(-np.expm1(-np.exp((y - m) / s))),
}


def case_law(case, ctx):
    _, name, thetas = case
    L = laws.LAWS[name]
    d = getattr(D, name)()
    for th in thetas:
        ys = np.array(_args(L, th))
        T = np.tile(np.array(th, dtype=float), (len(ys), 1))
        got = {k: np.asarray(getattr(d, k)(ys, T)) for k in ("pdf", "logpdf", "cdf", "logcdf")}
        ref_lp, ref_c = L.logpdf(ys, *th), L.cdf(ys, *th)
        for k, v in got.items():
            ctx.evaluated(len(ys))
            if v.shape != ys.shape:
                return ctx.fail("shape:" + k, f"{name} {k} shape {v.shape}")
        checks = (
            ("pdf", got["pdf"], np.exp(ref_lp)),
            ("logpdf", got["logpdf"], ref_lp),
            ("cdf", got["cdf"], ref_c),
        )
        for k, a, b in checks:
            for i in range(len(ys)):
                if k == "logpdf" and b[i] < -1e5:  # nothing but a huge negative number can be told apart here
                    if not a[i] < -9e4:
                        return ctx.fail(k, f"{name}{th} {k}({ys[i]!r}) = {a[i]!r}, expected {b[i]!r}")
                    continue
                if not lclose(a[i], b[i], 1e-6, 1e-9 * (1 + (abs(b[i]) if np.isfinite(b[i]) else 0))):
                    return ctx.fail(k, f"{name}{th} {k}({ys[i]!r}) = {a[i]!r}, expected {b[i]!r}")
        with np.errstate(all="ignore"):
            ref_lc = LOGCDF[name](ys, *th) if name in LOGCDF else None
            for i in range(len(ys)):
                if got["cdf"][i] > 1e-290 and not lclose(got["logcdf"][i], np.log(got["cdf"][i]), 1e-6, 1e-9):
                    return ctx.fail("logcdf", f"{name}{th} logcdf({ys[i]!r}) = {got['logcdf'][i]!r}, log(cdf) = {np.log(got['cdf'][i])!r}")
                if name in LOGCDF and -1e8 < ref_lc[i] < -600 and not lclose(got["logcdf"][i], ref_lc[i], 1e-6):
                    return ctx.fail("logcdf-tail", f"{name}{th} logcdf({ys[i]!r}) = {got['logcdf'][i]!r}, expected {ref_lc[i]!r}")
                if got["cdf"][i] <= 1e-290 and not got["logcdf"][i] < -600:
                    return ctx.fail("logcdf-tail", f"{name}{th} logcdf({ys[i]!r}) = {got['logcdf'][i]!r}")
        # walk along the ordered arguments: the distribution function climbs by the law's increments
        o = np.argsort(ys, kind="stable")
        ctx.step(len(ys) - 1)
        ctx.trace()
        for y in ys.tolist():
            ctx.state(name, th, y)
        if np.any(np.diff(got["cdf"][o]) < -1e-12) or not close(np.diff(got["cdf"][o]), np.diff(ref_c[o]), 1e-6, 1e-9):
            return ctx.fail("cdf-walk", f"{name}{th}: increments of the distribution function")
        # far outside
        out = np.array(_outside(L))
        if len(out):
            T = np.tile(np.array(th, dtype=float), (len(out), 1))
            ctx.evaluated(4 * len(out))
            side = (out >= 1).astype(float) if L.hi == 1 else (out > 0).astype(float)
            for k, exp in (("pdf", np.zeros(len(out))), ("logpdf", np.full(len(out), -INF)), ("cdf", side), ("logcdf", np.where(side == 1, 0.0, -INF))):
                v = np.asarray(getattr(d, k)(out, T))
                if not close(v, exp, 1e-12, 1e-12):
                    return ctx.fail("outside:" + k, f"{name}{th} {k}({out.tolist()}) = {v.tolist()}, expected {exp.tolist()}")
        # quantiles
        qs = [0.0, *QS, 1.0]
        below = sum(L.mass(a, th) for a in L.atoms if a <= L.lo) if L.atoms else 0.0
        cw = L.cont_weight(th)
        if L.atoms:
            qs += [below * 0.5, below * 0.999999, below + cw * 1e-3, below + 0.5 * cw, below + cw * 0.999]
            if any(a > L.lo for a in L.atoms):
                qs += [below + cw + (1 - below - cw) * 0.001, 0.5 * (below + cw) + 0.5]
        qs = np.array(qs)
        T1 = np.array([th], dtype=float)
        v = np.asarray(d.ppf(qs[:, None], T1))
        ctx.evaluated(len(qs))
        if v.shape != (len(qs), 1):
            return ctx.fail("ppf-shape", f"{name} ppf shape {v.shape}")
        v = v[:, 0]
        vq = np.asarray(d.quantile(qs[:, None], T1))[:, 0]
        if not close(v, vq, 0, 0):
            return ctx.fail("quantile-alias", f"{name}{th} {v} {vq}")
        e = L.ppf(qs, *th)
        for i, q in enumerate(qs):
            if q in (0.0, 1.0) or not np.isfinite(e[i]):
                lo_ok = v[i] == L.ppf(q, *th) or (q == 1.0 and L.hi == 1 and v[i] >= 1 - 1e-15) or (q == 0.0 and v[i] <= max(L.lo, 0) + 1e-15)
                if not lo_ok:
                    return ctx.fail("ppf-ends", f"{name}{th} ppf({q}) = {v[i]!r} expected {e[i]!r}")
            elif not lclose(v[i], e[i], 2e-6, 1e-9 if L.lo == -INF else 1e-12):
                # ill-conditioned inverse: accept when the distribution function agrees
                back = float(L.cdf(v[i], *th))
                if not (abs(back - q) <= 1e-9 * min(q, 1 - q) + 1e-15):
                    return ctx.fail("ppf", f"{name}{th} ppf({q!r}) = {v[i]!r} expected {e[i]!r}")
        srt = v[np.argsort(qs)]
        with np.errstate(all="ignore"):
            drop = srt[1:] < srt[:-1] - 1e-12 * np.maximum(1e-12, np.abs(srt[:-1]))
        ctx.step(len(qs) - 1)
        if np.any(drop):
            return ctx.fail("ppf-monotone", f"{name}{th} quantiles decrease")
        bad = np.asarray(d.ppf(np.array([[-0.1], [1.1]]), T1))
        if not np.all(np.isnan(bad)):
            return ctx.fail("ppf-outside", f"{name}{th} ppf(-0.1, 1.1) = {bad.ravel()}")
        m, med = np.asarray(d.mean(T1)), np.asarray(d.median(T1))
        ctx.evaluated(3)
        em = float(L.mean(*[float(t) for t in th]))
        if m.shape != (1,) or not (np.isnan(em) or lclose(m[0], em, 1e-8, 1e-9)):
            return ctx.fail("mean", f"{name}{th} mean {m} expected {em}")
        if med.shape != (1,) or not lclose(med[0], float(L.ppf(0.5, *th)), 1e-6, 1e-9):
            return ctx.fail("median", f"{name}{th} median {med} expected {L.ppf(0.5, *th)}")
        ctx.outcome(name, got["pdf"])


def case_rows(case, ctx):
    """Batch evaluation equals every row alone; vector, column and matrix arguments broadcast alike."""
    _, name, tier = case
    L = laws.LAWS[name]
    d = getattr(D, name)()
    g = grid(name, "rows")
    T = np.array(g, dtype=float)
    n = len(T)
    qs = np.array([0.02, 0.3, 0.5, 0.77, 0.98])
    q_row = np.resize(qs, n)
    y_row = np.array([float(L.ppf(q, *t)) for q, t in zip(q_row, g)])
    for k, arg in (("pdf", y_row), ("logpdf", y_row), ("cdf", y_row), ("logcdf", y_row), ("ppf", q_row)):
        full = np.asarray(getattr(d, k)(arg, T))
        if full.shape != (n,):
            return ctx.fail("row-shape:" + k, f"{name} {full.shape}")
        for i in range(n):
            one = np.asarray(getattr(d, k)(arg[i : i + 1], T[i : i + 1]))
            ctx.evaluated()
            ctx.step()
            ctx.trace()
            if not close(one, full[i : i + 1], 1e-9, 1e-12):
                return ctx.fail("row:" + k, f"{name}{g[i]} {k}: alone {one} in batch {full[i]}")
        perm = np.arange(n)[::-1]
        if not close(np.asarray(getattr(d, k)(arg[perm], T[perm])), full[perm], 1e-9, 1e-12):
            return ctx.fail("perm:" + k, name)
        for r in (130, 1100, 2500):
            many = np.asarray(getattr(d, k)(np.resize(arg, r), np.resize(T, (r, T.shape[1]))))
            ctx.evaluated(r)
            if many.shape != (r,) or not close(many, np.resize(full, r), 1e-9, 1e-12):
                return ctx.fail("row:" + k, f"{name}: {r} rows differ from the rows alone")
        mat = np.asarray(getattr(d, k)(qs[:, None] if k == "ppf" else np.quantile(y_row, qs)[:, None], T))
        if mat.shape != (len(qs), n):
            return ctx.fail("mat-shape:" + k, f"{name} {k} {mat.shape}")
        for r in range(len(qs)):
            a = np.full(n, qs[r] if k == "ppf" else np.quantile(y_row, qs)[r])
            ctx.evaluated(n)
            if not close(mat[r], np.asarray(getattr(d, k)(a, T)), 1e-9, 1e-12):
                return ctx.fail("mat:" + k, f"{name} row {r}")
            if k == "ppf" and not close(mat[r], np.asarray(d.ppf(float(qs[r]), T)), 1e-9, 1e-12):
                return ctx.fail("scalar:" + k, f"{name} row {r}")
    m, md = np.asarray(d.mean(T)), np.asarray(d.median(T))
    for i in range(n):
        ctx.evaluated(2)
        if not close(np.asarray(d.mean(T[i : i + 1])), m[i : i + 1], 1e-12, 0) or not close(np.asarray(d.median(T[i : i + 1])), md[i : i + 1], 1e-9, 1e-12):
            return ctx.fail("row:mean", f"{name}{g[i]}")


def case_rvs(case, ctx):
    _, name, tier = case
    L = laws.LAWS[name]
    d = getattr(D, name)()
    g = grid(name, "rows")
    picks = sorted({0, len(g) // 3, len(g) // 2, len(g) - 1})
    # as many draws as rows, one more and one fewer: every row keeps its own law
    for m in (60, 61):
        for size in (60, 61):
            T = np.array([g[0], g[-1]] * 31, dtype=float)[:m]
            np.random.seed(815)
            x = np.asarray(d.rvs(size, T))
            ctx.evaluated(size * m)
            ctx.trace()
            if x.shape != (m, size):
                return ctx.fail("rvs-shape", f"{name} rvs({size}) for {m} rows has shape {x.shape}")
            for k, th in enumerate((g[0], g[-1])):
                xs = np.sort(x[k::2].ravel())
                c = L.cdf(xs, *th)
                if not np.max(np.abs(np.searchsorted(xs, xs, side="right") / len(xs) - c)) <= 0.06:
                    return ctx.fail("rvs-law", f"{name}{th}: rows {k}::2 of {m}, {size} draws: Kolmogorov distance {np.max(np.abs(np.searchsorted(xs, xs, side='right') / len(xs) - c))}")
    for rows in ([g[i] for i in picks], [g[-1]], [g[0], g[-1]]):
        T = np.array(rows, dtype=float)
        for size in (1, 2, len(rows), 3000):
            np.random.seed(4711)
            x = np.asarray(d.rvs(size, T))
            ctx.evaluated(size * len(rows))
            ctx.step()
            ctx.trace()
            if x.shape != (len(rows), size):
                return ctx.fail("rvs-shape", f"{name} rvs({size}) for {len(rows)} rows has shape {x.shape}")
            lo, hi = (0.0, 1.0) if L.hi == 1 else (L.lo, L.hi)
            if np.any(x < lo) or np.any(x > hi) or np.any(np.isnan(x)):
                return ctx.fail("rvs-support", name)
            if size >= 1000:
                for i, th in enumerate(rows):
                    xs = np.sort(x[i])
                    n = len(xs)
                    c = L.cdf(xs, *th)
                    emp_hi = np.searchsorted(xs, xs, side="right") / n
                    if not np.max(np.abs(emp_hi - c)) <= 0.06:
                        return ctx.fail("rvs-law", f"{name}{th}: Kolmogorov distance {np.max(np.abs(emp_hi - c))}")
                if len(rows) > 1 and len({tuple(r) for r in np.round(x, 12).tolist()}) != len(rows):
                    return ctx.fail("rvs-rows", f"{name}: identical rows for different parameters")
