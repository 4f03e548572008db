"""C05: the selected model minimises the information criterion after fit and after every update."""
import itertools

import numpy as np

from ondil.estimators import OnlineLinearModel
from ondil.information_criteria import InformationCriterion

from . import gamdata
from .gamdata import build, make_data, quiet, weights
from .gamref import Undecided
from .ref import MethodSpec, RefScaler, discount, effective_n, ic_value, ll_from_rss, nonzero
from .util import batches, batches_ok, close, close_scaled, compositions, data_matrix, raises

ASSUMPTIONS = [
    "selections whose two best criteria agree within 1e-6 are not judged (rounding decides between them)",
    "distributional regression: one or two plain iterations (max_it_inner=1), so that working response and weights are defined by the configuration alone",
]
CHUNK = 6
ICS = ("aic", "bic", "hqc", "max")
TIGHT = dict(tolerance=1e-13, max_iterations=20000)


def BOUNDS(tier):
    return (
        "criteria lattice: 5 criteria x 11 n x 6 p x 6 values, scalar/array; linear model: 3 path methods x 4 criteria x forget {0,.03,.2} x 4 weight patterns x scaling x intercept options x all compositions of "
        + ("3" if tier == "quick" else "5")
        + " update rows, plus batches of up to 1100 rows and 40-step histories, response units {1e-9,1e-6,1e5,1e9}, weights times 1e4; distributional regression: 4 families x both selection modes x criteria x forget x weights x compositions x one/two iterations"
    )


def cases(tier):
    m = 3 if tier == "quick" else 5
    # distributional first (expensive)
    for name in ("Normal", "Gamma", "StudentT", "Beta"):
        for sel in ("local_rss", "global_ll"):
            for ic in ICS:
                for forget in (0.0, 0.04):
                    for wp in ("none", "mixed"):
                        yield ("gam", name, sel, ic, forget, wp, m)
    for sel in ("local_rss", "global_ll"):
        for variant in range(6):
            yield ("gammix", sel, variant, m)
    for name in ("Normal", "Gamma", "Logistic"):
        for sel in ("local_rss", "global_ll"):
            for ic in ICS:
                yield ("gambatch", name, sel, ic)
    for kind in ("lasso", "elasticnet"):
        for ic in ICS:
            for forget in (0.0, 0.03, 0.2):
                for wp in gamdata.WPATS:
                    for opt in ("plain", "scaled", "noint", "regint"):
                        yield ("lin", kind, ic, forget, wp, opt, m)
    for ic in ICS:
        for forget in (0.0, 0.02):
            yield ("linlong", ic, forget)
        for u in (1e-9, 1e-6, 1e5, 1e9):
            yield ("linunits", ic, u)
    yield ("ic",)


def warmup():
    gamdata.warm()
    X = data_matrix(12, 2)
    for m in ("lasso", "elasticnet"):
        e = OnlineLinearModel(method=m, forget=0.1).fit(X, X[:, 0] + X[:, 1] ** 2)
        e.update(X[:1], X[:1, 0])
        e.update(X[:2], X[:2, 0])


def run_case(case, ctx):
    return globals()["case_" + case[0]](case, ctx)


def case_ic(case, ctx):
    ns = (1.5, 2, 2.25, 3, 5, 10, 17, 50, 365, 1000, 12.5)
    ps = (0, 1, 2, 3, 5, 8)
    vals = (-250.0, -3.5, -0.1, 0.0, 2.0, 400.0)
    rsss = (1e-6, 0.3, 1.0, 7.5, 2e4)
    for c in ("aic", "aicc", "bic", "hqc", "max"):
        for n in ns:
            for p in ps:
                if c == "aicc" and n - p - 1 == 0:
                    if not raises(ValueError, InformationCriterion(n, p, c).from_ll, 1.0):
                        return ctx.fail("aicc", f"n-p-1=0 accepted for n={n}")
                    continue
                for v in vals:
                    got = InformationCriterion(n_observations=n, n_parameters=p, criterion=c).from_ll(v)
                    ctx.step()
                    if not close(got, ic_value(c, v, p, n), 1e-10, 1e-10):
                        return ctx.fail("ic-ll", f"{c}(n={n}, p={p}, ll={v}) = {got}, expected {ic_value(c, v, p, n)}")
                for v in rsss:
                    got = InformationCriterion(n_observations=n, n_parameters=p, criterion=c).from_rss(v)
                    e = ic_value(c, ll_from_rss(v, n), p, n)
                    ctx.step()
                    ctx.state(c, n, p, v)
                    if not close(got, e, 1e-10, 1e-10):
                        return ctx.fail("ic-rss", f"{c}(n={n}, p={p}, rss={v}) = {got}, expected {e}")
            P = np.array([p for p in ps if not (c == "aicc" and n - p - 1 == 0)])
            for arr in (np.resize(vals, len(P)), np.resize(vals[::-1], len(P))):
                got = np.asarray(InformationCriterion(n, P, c).from_ll(arr))
                ctx.step()
                if not close(got, ic_value(c, arr, P, n), 1e-10, 1e-10):
                    return ctx.fail("ic-array", f"{c} arrays n={n}: {got}")
            arr = np.resize(rsss, len(P))
            got = np.asarray(InformationCriterion(n, P, c).from_rss(arr))
            if not close(got, ic_value(c, ll_from_rss(arr, n), P, n), 1e-10, 1e-10):
                return ctx.fail("ic-array-rss", f"{c} arrays n={n}: {got}")
            ctx.trace()
    for bad in ("AIC", "", "loo", None):
        if not raises(ValueError, InformationCriterion, 10, 2, bad):
            return ctx.fail("ic-unknown", f"criterion {bad!r} accepted")


def spec_of(kind, n=14):
    kw = dict(lambda_n=n, lambda_eps=1e-3, **TIGHT)
    return MethodSpec("lasso", **kw) if kind == "lasso" else MethodSpec("elasticnet", alpha=0.6, **kw)


def lin_data(n, seed=0):
    X = data_matrix(n, 4, 3 * seed)
    y = 0.7 + 0.9 * X[:, 0] - 0.25 * X[:, 1] + 0.12 * X[:, 2] + 0.8 * data_matrix(n, 1, 3 * seed + 9)[:, 0]
    return X, y


class LinMonitor:
    """Recomputes the criterion of every path entry from the public coefficient path of every call."""

    def __init__(self, forget, scale, fi, ic):
        self.forget, self.fi, self.ic = forget, fi, ic
        self.sc = RefScaler(forget, scale, 4)
        self.rss = None
        self.n = 0.0

    def after(self, est, X, y, w):
        self.sc.add(X, w)
        Z = self.sc.transform(X)
        if self.fi:
            Z = np.hstack([np.ones((len(Z), 1)), Z])
        path = np.asarray(est.coef_path_)
        f = discount(len(y), self.forget) * w
        sse = (f[:, None] * (y[:, None] - Z @ path.T) ** 2).sum(0)
        self.rss = sse if self.rss is None else (1 - self.forget) ** len(y) * self.rss + sse
        self.n += w.sum()
        n = effective_n(self.forget, self.n)
        k = nonzero(path)
        self.index = None
        if np.any(np.sum(np.abs(path) > 1e-6 * np.max(np.abs(path), axis=0), axis=1) != k):
            return None  # a coefficient within rounding of zero
        ics = ic_value(self.ic, ll_from_rss(self.rss, n), k, n)
        coef = np.asarray(est.coef_)
        hit = [i for i in range(len(path)) if np.allclose(path[i], coef, rtol=1e-9, atol=1e-12 * np.abs(coef).max())]
        if not hit:
            return f"coefficients {coef} are no entry of the path"
        best = float(np.min(ics))
        mine = min(ics[i] for i in hit)
        if not mine <= best + 1e-6 * (1 + abs(best)):
            return f"selected entry {hit} has criterion {mine}, entry {int(np.argmin(ics))} has {best} ({self.ic}, n={n}, p={k.tolist()})"
        self.index = int(np.argmin(ics))
        return None


def case_lin(case, ctx):
    _, kind, ic, forget, wp, opt, m = case
    scale, fi, ri = opt == "scaled", opt != "noint", opt == "regint"
    n0 = 14
    X, y = lin_data(n0 + m, 1)
    w = weights(wp, n0 + m)
    for comp in [()] + list(compositions(m)):
        parts = (n0,) + comp
        if not batches_ok(w, parts):
            continue
        est = OnlineLinearModel(method=spec_of(kind).build(), ic=ic, forget=forget, scale_inputs=scale, fit_intercept=fi, regularize_intercept=ri)
        mon = LinMonitor(forget, scale, fi, ic)
        for i, s in enumerate(batches(parts)):
            sw = None if wp == "none" else w[s]
            (est.fit if i == 0 else est.update)(X[s], y[s], sample_weight=sw)
            ctx.step()
            msg = mon.after(est, X[s], y[s], w[s])
            if msg:
                return ctx.fail("lin-select", f"after call {i} of split {parts}: {msg}")
            ctx.state(est.coef_)
            ctx.outcome(mon.index)
        ctx.trace()


def case_linlong(case, ctx):
    _, ic, forget = case
    X, y = lin_data(1400, 2)
    w = weights("mixed", 1400)
    for parts in ((20, 130, 1, 1100), (1100, 3, 130), (20,) + (1,) * 40, (30, 20, 1, 37, 2, 50), (12, 5, 5, 5, 20, 20, 3, 1, 1)):
        for kind in ("lasso", "elasticnet"):
            for n in (5, 60):
                est = OnlineLinearModel(method=spec_of(kind, n).build(), ic=ic, forget=forget, scale_inputs=True)
                mon = LinMonitor(forget, True, True, ic)
                for i, s in enumerate(batches(parts)):
                    (est.fit if i == 0 else est.update)(X[s], y[s], sample_weight=w[s])
                    ctx.step()
                    msg = mon.after(est, X[s], y[s], w[s])
                    if msg:
                        return ctx.fail("lin-select", f"after call {i} of split {parts}: {msg}")
                    ctx.state(est.coef_)
                    ctx.outcome(mon.index)
                ctx.trace()


def case_linunits(case, ctx):
    """The selection with the response in other units, located away from zero, and with heavy weights."""
    _, ic, u = case
    X, y = lin_data(24, 2)
    for off, ws, forget, kind, n in itertools.product((0.0, 200.0), (1.0, 1e4), (0.0, 1e-4, 0.03), ("lasso", "elasticnet"), (7, 30)):
        w = weights("mixed", 24) * ws
        for parts in ((14, 1, 2, 7), (14,) + (1,) * 10):
            est = OnlineLinearModel(method=spec_of(kind, n).build(), ic=ic, forget=forget, scale_inputs=True)
            mon = LinMonitor(forget, True, True, ic)
            for i, s in enumerate(batches(parts)):
                (est.fit if i == 0 else est.update)(X[s], (y[s] + off) * u, sample_weight=w[s])
                ctx.step()
                msg = mon.after(est, X[s], (y[s] + off) * u, w[s])
                if msg:
                    return ctx.fail("lin-select", f"response in units of {u} (location {off}), weights times {ws}, forget {forget}, {kind}: after call {i} of split {parts}: {msg}")
                ctx.outcome(mon.index)
            ctx.state(est.coef_ / u)
            ctx.trace()


def drive(ctx, est, ref, X, y, w, parts, sw, tag):
    """Runs one history on both sides; returns False on a violation."""
    for i, s in enumerate(batches(parts)):
        try:
            (ref.fit if i == 0 else ref.update)(X[s], y[s], w[s])
        except (Undecided, np.linalg.LinAlgError):
            ctx.outcome("undecided")
            return True
        with quiet():
            (est.fit if i == 0 else est.update)(X[s], y[s], sample_weight=w[s] if sw else None)
        ctx.step()
        for p in range(ref.P):
            c = np.asarray(est.coef_[p])
            if not close_scaled(c, ref.coef[p], 2e-6, scale=max(1.0, np.abs(ref.coef[p]).max())):
                ctx.fail("gam-select", f"{tag}: parameter {p} after call {i} of split {parts}: {c} expected {ref.coef[p]}")
                return False
            if ref.path[p] is not None:
                q = np.asarray(est.coef_path_[p])
                if not close_scaled(q, ref.path[p], 2e-6, scale=max(1.0, np.abs(ref.path[p]).max())):
                    ctx.fail("gam-path", f"{tag}: path of parameter {p} after call {i} of split {parts}")
                    return False
                ctx.outcome(p, int(np.argmin(np.abs(ref.path[p] - ref.coef[p]).sum(1))))
        ctx.state([est.coef_[p] for p in range(ref.P)])
    ctx.trace()
    return True


def case_gam(case, ctx):
    _, name, sel, ic, forget, wp, m = case
    n0 = 26
    X, y = make_data(name, n0 + m, 4, 1)
    w = weights(wp, n0 + m)
    spec = {p: spec_of("lasso" if p == 0 else "elasticnet", 10) for p in range(2)}
    if name == "StudentT":
        spec[2] = MethodSpec("ols")
    eq = {0: "all", 1: [0, 2]}
    for K in (1, 2):
        for comp in [()] + list(compositions(m)):
            est, ref = build(name, 4, eq=eq, forget=forget, method=spec, ic=ic, selection=sel, K=K)
            if not drive(ctx, est, ref, X, y, w, (n0,) + comp, wp != "none", f"{name} K={K}"):
                return


def case_gammix(case, ctx):
    """Different criteria, methods and forget factors per parameter."""
    _, sel, v, m = case
    n0 = 26
    name = ("Normal", "Gamma", "Logistic")[v % 3]
    X, y = make_data(name, n0 + m + 8, 4, 2)
    w = weights("mixed", n0 + m + 8)
    spec = {0: spec_of("elasticnet", 8), 1: spec_of("lasso", 12)}
    for ic0, ic1 in itertools.product(ICS, ICS):
        est, ref = build(name, 4, eq={0: "all", 1: "all"}, forget={0: 0.05, 1: 0.0} if v < 3 else {0: 0.0, 1: 0.1}, method=spec, ic={0: ic0, 1: ic1}, selection=sel, K=1,
                         regularize_intercept={0: False, 1: v % 2 == 1}, order=[1, 0] if v >= 3 else None)
        if not drive(ctx, est, ref, X, y, w, (n0, 1, m - 1, 8), True, f"{name} {ic0}/{ic1}"):
            return


def case_gambatch(case, ctx):
    """Long histories of large batches under strong forgetting: old and new evidence have to be weighed against each other."""
    _, name, sel, ic = case
    spec = {0: spec_of("lasso", 14), 1: spec_of("elasticnet", 10)}
    for parts in ((26, 10, 10, 10, 1, 10), (40, 3, 15, 2, 7, 12)):
        n = sum(parts)
        for forget in (0.02, 0.1):
            for seed in range(6):
                X, y = make_data(name, n, 4, seed)
                w = weights(("mixed", "none", "const")[seed % 3], n)
                est, ref = build(name, 4, eq={0: "all", 1: "all"}, forget=forget, method=spec, ic=ic, selection=sel, K=1)
                if not drive(ctx, est, ref, X, y, w, parts, True, f"{name} forget={forget} data {seed}"):
                    return
