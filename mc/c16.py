"""C16: all small integer weightings against row replication; constants, None and counts along all histories; running mean over all batchings."""
import itertools

import numpy as np

from ondil import OnlineScaler
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, Ridge
from ondil.utils import calculate_asymptotic_training_length, calculate_effective_training_length, online_mean_update

from . import gamdata, laws
from . import subjects as sb
from .gamdata import BASE, ROUNDTOL, make_data, make_dist, quiet
from .ref import discount
from .subjects import call, diff, observe
from .util import compositions

ASSUMPTIONS = [
    "replication without forgetting (with forgetting a repeated row also discounts); distributional first fits compared at convergence (their start values are unweighted), updates exactly",
    "batches whose weights are all zero are rejected by input validation and not part of the bound",
]
CHUNK = 1


def BOUNDS(tier):
    return (
        "all weightings in {0,1,2,3}^3 of an update batch and {0,1,2}^4 of rows of the first fit, at every position of a 3-call history, for the scaler, 6 linear models and 17 families x ols/lasso, and 3 weightings of batches of 310 to 410 rows; constants {1/4,2,3,64,1e6} (scaler also 1e-8); None vs ones vs scalar; "
        "counts for all compositions of 5 rows x 4 forget factors x 5 weight patterns; running mean: all compositions of 8 values x 6 forget factors x 4 containers"
    )


def cases(tier):
    for name in laws.LAWS:
        yield ("gamrep", name)
        yield ("gamfit", name)
        yield ("gamscale", name)
        yield ("gambig", name)
    for m in LIN:
        yield ("linrep", m)
        yield ("linscale", m)
        yield ("linbig", m)
    for m in list(LIN) + ["gam"]:
        yield ("count", m, 5 if tier == "quick" else 6)
    yield ("mean", 8 if tier == "quick" else 11)
    yield ("length", 0)


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


TIGHT = dict(tolerance=1e-12, max_iterations=5000)
LIN = {
    "scaler": lambda **k: OnlineScaler(**k), "scaler_mask": lambda **k: OnlineScaler(to_scale=np.array([True, False, True]), **k), "ols": lambda **k: OnlineLinearModel(method="ols", **k), "ols_raw": lambda **k: OnlineLinearModel(method="ols", scale_inputs=False, fit_intercept=False, **k),
    "lasso": lambda **k: OnlineLinearModel(method=LassoPath(lambda_n=6, **TIGHT), **k), "enet": lambda **k: OnlineLinearModel(method=ElasticNetPath(alpha=0.5, lambda_n=6, **TIGHT), ic="aic", **k),
    "ridge": lambda **k: OnlineLinearModel(method=Ridge(lambda_reg=0.8, **TIGHT), **k), "olasso": lambda **k: OnlineLasso(lambda_n=6, **TIGHT, **k),
}


def rep(X, y, w):
    k = np.asarray(w).astype(int)
    return np.repeat(X, k, axis=0), np.repeat(y, k)


def case_linrep(case, ctx):
    _, m = case
    mk = LIN[m]
    X, y = sb.lin_data(18, 1)
    probe = X[:3] * 0.5
    B = (slice(0, 12), slice(12, 15), slice(15, 18))
    ones = [np.ones(12), np.ones(3), np.ones(3)]
    plans = []
    for pos in (1, 2):
        for wv in itertools.product((0, 1, 2, 3), repeat=3):
            if sum(wv):
                p = list(ones)
                p[pos] = np.array(wv, dtype=float)
                plans.append(p)
    for wv in itertools.product((0, 1, 2), repeat=4):
        p = list(ones)
        p[0] = np.ones(12)
        p[0][[0, 3, 7, 11]] = wv
        plans.append(p)
    plans.append([np.arange(12) % 4 + 0.0, np.array([3.0, 0, 1]), np.array([0, 2.0, 5])])
    plans.append([np.full(12, 2.0), np.full(3, 7.0), np.full(3, 1.0)])
    for p in plans:
        a, b = mk(), mk()
        for i, s in enumerate(B):
            op = "fit" if i == 0 else "update"
            call(a, op, X[s], y[s], p[i])
            Xr, yr = rep(X[s], y[s], p[i])
            call(b, op, Xr, yr)
            ctx.step(2)
            d = diff(observe(a, probe), observe(b, probe), 1e-7)
            if d:
                return ctx.fail("replication", f"{m}: weights {[list(v) for v in p]} after call {i}: {d}")
        ctx.trace()
        ctx.state(m, [list(v) for v in p])


BIGW = (("few", lambda n: (np.arange(n) % 7 == 3) * 1.0 + (np.arange(n) % 3 == 0) * 2.0), ("many", lambda n: np.arange(n) % 5 + 1.0), ("heavy", lambda n: np.where(np.arange(n) % 11 == 4, 40.0, 1.0)))


def case_linbig(case, ctx):
    """Weights against replication in batches of hundreds of rows."""
    _, m = case
    X, y = sb.lin_data(760, 1)
    probe = X[:3] * 0.5
    for wn, wf in BIGW:
        w = wf(760)
        a, b = LIN[m](), LIN[m]()
        for i, s in enumerate((slice(0, 340), slice(340, 350), slice(350, 760))):
            op = "fit" if i == 0 else "update"
            call(a, op, X[s], y[s], w[s])
            call(b, op, *rep(X[s], y[s], w[s]))
            ctx.step(2)
            d = diff(observe(a, probe), observe(b, probe), 1e-7)
            if d:
                return ctx.fail("replication", f"{m}: weights {wn} of 760 rows after call {i}: {d}")
        ctx.trace()
        ctx.state(m, wn)


def case_gambig(case, ctx):
    """Weighted updates against replicated ones in batches of hundreds of rows."""
    _, name = case
    X, y = make_data(name, 560, 3, 1)
    probe = X[:3] * 0.6
    for wn, wf in BIGW:
        w = wf(560)
        for K in (1, 2):
            a, b = gam(name, max_it_outer=K, max_it_inner=1), gam(name, max_it_outer=K, max_it_inner=1)
            for e in (a, b):
                call(e, "fit", X[:240], y[:240])
            for i, s in enumerate((slice(240, 550), slice(550, 560))):
                call(a, "update", X[s], y[s], w[s])
                call(b, "update", *rep(X[s], y[s], w[s]))
                ctx.step(2)
                oa, ob = observe(a, probe), observe(b, probe)
                if not all(np.all(np.isfinite(x)) for x in ob.values()) or np.abs(ob["t"]).max() > 1e6:
                    ctx.outcome("out of range")
                    break
                d = diff(oa, ob, 1e-6)
                if d:
                    return ctx.fail("replication", f"{name}: weights {wn} of 560 rows in update {i} (K={K}): {d}")
            ctx.trace()
            ctx.state(name, wn, K)


def case_linscale(case, ctx):
    _, m = case
    mk = LIN[m]
    X, y = sb.lin_data(18, 1)
    probe = X[:3] * 0.5
    B = (slice(0, 12), slice(12, 13), slice(13, 18))
    for f in (0.0, 0.03, 0.3):
        for pat in ((1.0,), (1.0, 2.0, 0.5), (1.0, 0.0, 3.0, 2.0)):
            w = np.array([pat[(i + 2) % len(pat)] for i in range(18)])
            base = []
            e = mk(forget=f)
            for i, s in enumerate(B):
                call(e, "fit" if i == 0 else "update", X[s], y[s], w[s])
                base.append(observe(e, probe))
            if pat == (1.0,):  # omitted, scalar one, integer ones
                for how in (None, 1.0, 1, "int"):
                    e = mk(forget=f)
                    for i, s in enumerate(B):
                        v = np.ones(s.stop - s.start, dtype=int) if how == "int" else how
                        call(e, "fit" if i == 0 else "update", X[s], y[s], v)
                        d = diff(observe(e, probe), base[i], 1e-9)
                        ctx.step()
                        if d:
                            return ctx.fail("none", f"{m}: sample_weight={how} vs ones after call {i} (forget {f}): {d}")
            if m in ("scaler", "scaler_mask", "ols", "ols_raw"):
                for c in (0.25, 2.0, 3.0, 64.0, 1e6) + ((1e-8,) if m.startswith("scaler") else ()):
                    e = mk(forget=f)
                    for i, s in enumerate(B):
                        if m.startswith("ols") and c * w[: s.stop].sum() <= 5:
                            break
                        call(e, "fit" if i == 0 else "update", X[s], y[s], c * w[s])
                        g = observe(e, probe)
                        ctx.step()
                        keys = [k for k in g if k in ("c", "t", "i")]
                        d = diff({k: g[k] for k in keys}, {k: base[i][k] for k in keys}, 1e-7)
                        if d:
                            return ctx.fail("scaling", f"{m}: weights times {c} change the result after call {i} (forget {f}): {d}")
                    ctx.trace()
            ctx.state(m, f, pat)


def gam(name, method="ols", **kw):
    P = len(BASE[name])
    eq = {p: "all" if p == 0 else "intercept" for p in range(P)}
    return ODR(distribution=make_dist(name), equation=eq, method=method, **{**ROUNDTOL, **kw})


def case_gamrep(case, ctx):
    """Weighted updates equal replicated updates (any number of iterations)."""
    _, name = case
    X, y = make_data(name, 36, 3, 1)
    probe = X[:3] * 0.6
    for method in ("ols", "lasso"):
        for sel in ("local_rss", "global_ll") if method == "lasso" else ("local_rss",):
            ws = [w for w in itertools.product((0, 1, 2, 3), repeat=3) if sum(w)]
            ws = ws[:: (4 if method == "lasso" else 1) * (3 if name in ("StudentT", "JSU") else 1)]
            for wi, wv in enumerate(ws):
                kw = dict(max_it_outer=1 + wi % 3, max_it_inner=1, model_selection=sel)
                m = LassoPath(lambda_n=6, **TIGHT) if method == "lasso" else "ols"
                a, b = gam(name, m, **kw), gam(name, m, **kw)
                for e in (a, b):
                    call(e, "fit", X[:30], y[:30])
                w = np.array(wv, dtype=float)
                for i, s in enumerate((slice(30, 33), slice(33, 36))):
                    v = w if i == 0 else w[::-1]
                    call(a, "update", X[s], y[s], v)
                    call(b, "update", *rep(X[s], y[s], v))
                    ctx.step(2)
                    oa, ob = observe(a, probe), observe(b, probe)
                    if not all(np.all(np.isfinite(x)) for x in ob.values()) or np.abs(ob["t"]).max() > 1e6:
                        ctx.outcome("out of range")
                        break
                    d = diff(oa, ob, 1e-6)
                    if d:
                        return ctx.fail("replication", f"{name} {method} {sel}: weights {v} in update {i}: {d}")
                ctx.trace()
                ctx.state(name, method, sel, wv)


def case_gamfit(case, ctx):
    """Converged weighted first fits equal replicated ones; None means ones."""
    _, name = case
    X, y = make_data(name, 40, 2, 1)
    probe = X[:3] * 0.6
    P = len(BASE[name])
    kw = dict(abs_tol_inner=1e-9, abs_tol_outer=1e-9, rel_tol_inner=1e-12, rel_tol_outer=1e-12, max_it_outer=60, max_it_inner=20)
    for wi, wv in enumerate(itertools.product((0, 1, 2), repeat=3)):
        w = np.ones(40)
        w[[4, 11, 22]] = wv
        if name not in ("JSU", "StudentT"):  # slow, possibly several limits: not a matter of the weights
            a, b = gam(name, **kw), gam(name, **kw)
            call(a, "fit", X, y, w)
            call(b, "fit", *rep(X, y, w))
            ctx.step(2)
            oa, ob = observe(a, probe), observe(b, probe)
            d = diff(oa, ob, 5e-4)
            if d:
                return ctx.fail("replication", f"{name}: weights {wv} of rows 4, 11, 22 in the first fit: {d}")
            call(a, "update", X[:2], y[:2], np.array([2.0, 1.0]))
            call(b, "update", *rep(X[:2], y[:2], [2, 1]))
            d = diff(observe(a, probe), observe(b, probe), 5e-4)
            if d:
                return ctx.fail("replication", f"{name}: weights {wv} in the first fit, then an update: {d}")
        ctx.trace()
        ctx.state(name, wv)
    for forget in (0.0, 0.05):
        hs = []
        for how in ("ones", None, 1.0, "int"):
            e = gam(name, max_it_outer=3, max_it_inner=2, forget=forget)
            obs = []
            for i, s in enumerate((slice(0, 36), slice(36, 37), slice(37, 40))):
                k = s.stop - s.start
                v = np.ones(k) if how == "ones" else (np.ones(k, dtype=int) if how == "int" else how)
                call(e, "fit" if i == 0 else "update", X[s], y[s], v)
                obs.append(observe(e, probe))
                ctx.step()
            hs.append((how, obs))
        for how, obs in hs[1:]:
            for i in range(3):
                d = diff(obs[i], hs[0][1][i], 1e-9)
                if d:
                    return ctx.fail("none", f"{name}: sample_weight={how} vs ones after call {i} (forget {forget}): {d}")


def case_gamscale(case, ctx):
    """A common factor on all weights leaves the least-squares coefficients unchanged."""
    _, name = case
    X, y = make_data(name, 36, 3, 1)
    probe = X[:3] * 0.6
    w = np.array([1.0, 2.0, 0.5])[np.arange(36) % 3]
    P = len(BASE[name])
    for forget in (0.0, 0.03, {p: 0.02 * p for p in range(P)}):
        for K, cs in ((1, (0.25, 2.0, 3.0, 64.0, 1e6)),):  # with more iterations the stopping rule compares deviances within rounding
            obs = {}
            for c in (1.0,) + cs:
                e = gam(name, max_it_outer=K, max_it_inner=1, forget=forget)
                obs[c] = []
                for i, s in enumerate((slice(0, 30), slice(30, 31), slice(31, 36))):
                    call(e, "fit" if i == 0 else "update", X[s], y[s], c * w[s])
                    obs[c].append(observe(e, probe))
                    ctx.step()
            for c in cs:
                for i in range(3):
                    a, b = obs[c][i], obs[1.0][i]
                    if np.abs(b["t"]).max() > 1e6 or not np.all(np.isfinite(b["t"])):
                        continue
                    keys = [k for k in a if k in ("t", "q", "m") or k.startswith("c")]
                    d = diff({k: a[k] for k in keys}, {k: b[k] for k in keys}, 1e-6)
                    if d:
                        return ctx.fail("scaling", f"{name}: weights times {c} change the coefficients after call {i} (forget {forget}, {K} iterations): {d}")
                ctx.trace()
                ctx.state(name, str(forget), K, c)


def case_count(case, ctx):
    _, m, rows = case
    X, y = sb.lin_data(30 + rows, 1)
    for comp in compositions(rows):
        for f in (0.0, 0.01, 0.2, 0.9):
            for pat in (None, (1.0, 2.0, 0.5), (1.0, 0.0, 3.0), (0.25,), (7.0,)):
                n0 = 30
                w = None if pat is None else np.array([pat[(i + 1) % len(pat)] for i in range(n0 + rows)])
                if m == "gam":
                    fd = {0: f, 1: f / 2}
                    est = ODR(equation={0: "all", 1: "intercept"}, forget=fd, max_it_outer=1, max_it_inner=1)
                else:
                    est = LIN[m](forget=f)
                tot, pos, ok = 0.0, 0, True
                for i, k in enumerate((n0,) + comp):
                    s = slice(pos, pos + k)
                    v = None if w is None else w[s]
                    if v is not None and v.sum() == 0:
                        ok = False
                        break
                    call(est, "fit" if i == 0 else ("update" if i % 2 else "partial_fit"), X[s], y[s], v)
                    pos += k
                    tot += k if v is None else v.sum()
                    ctx.step()
                    if not (abs(float(est.n_observations_) - tot) <= 1e-9 * tot and abs(float(est.n_samples_) - tot) <= 1e-9 * tot):
                        return ctx.fail("count", f"{m}: forget {f}, weights {pat}, calls {(n0,) + comp}: n_observations_ {est.n_observations_} expected {tot}")
                    if m == "gam":
                        pairs = [(est.n_training_[p], fd[p]) for p in (0, 1)]
                    elif m.startswith("scaler"):
                        pairs = []
                    else:
                        pairs = [(est.n_training_, f)]
                    for got, g in pairs:
                        want = tot if g == 0 else -np.expm1(tot * np.log1p(-g)) / g
                        if not abs(float(got) - want) <= 1e-8 * want:
                            return ctx.fail("n_training", f"{m}: forget {g}, weights {pat}, calls {(n0,) + comp}: n_training_ {got} expected {want}")
                ctx.trace()
                ctx.state(m, comp, f, pat)


def case_mean(case, ctx):
    _, n = case
    v = np.array([1.5, -2.0, 0.25, 7.0, -3.5, 0.0, 4.0, 1.0, -1.0, 2.5, 0.5, 3.0])[:n]
    for f in (0.0, 0.01, 0.1, 0.5, 0.9, 0.999):
        want = [float((discount(k, f) * v[:k]).sum() / discount(k, f).sum()) for k in range(1, n + 1)]
        for comp in compositions(n - 1):
            for how in ("array", "scalar", "float32", "strided"):
                avg, pos = float(v[0]), 1
                for m in comp:
                    block = v[pos : pos + m]
                    pos += m
                    if m == 1 and how == "scalar":
                        avg = online_mean_update(avg, float(block[0]), f, pos)
                    elif how == "float32":
                        avg = online_mean_update(avg, block.astype(np.float32), f, pos)
                    elif how == "strided":
                        avg = online_mean_update(avg, np.repeat(block, 2)[::2], f, pos)
                    else:
                        avg = online_mean_update(avg, block.copy(), f, pos)
                    ctx.step()
                    if not abs(avg - want[pos - 1]) <= (1e-5 if how == "float32" else 1e-8):
                        return ctx.fail("mean", f"running mean, forget {f}, batches {comp}, {how}: after {pos} values {avg} expected {want[pos - 1]}")
                ctx.trace()
                ctx.state(f, comp, how)
    # long sequences
    for f in (0.0, 0.001, 0.05, 0.5):
        x = np.sin(np.arange(3000.0)) + 0.2
        for k in (1, 7, 500):
            avg, pos = float(x[0]), 1
            while pos < 3000:
                b = x[pos : pos + k]
                pos += len(b)
                avg = online_mean_update(avg, b, f, pos)
                ctx.step()
            w = discount(3000, f)
            if not abs(avg - (w * x).sum() / w.sum()) <= 1e-8:
                return ctx.fail("mean", f"running mean of 3000 values, forget {f}, blocks of {k}: {avg}")


def case_length(case, ctx):
    for f in (0.0, 1e-6, 1e-3, 0.01, 0.1, 0.5, 0.9, 0.999):
        for n in (0.5, 1, 2, 3, 7.25, 10, 100, 10**4, 10**7):
            got = calculate_effective_training_length(f, n)
            want = n if f == 0 else -np.expm1(n * np.log1p(-f)) / f
            if not abs(got - want) <= 1e-6 * want:
                return ctx.fail("length", f"effective length for forget {f}, n {n}: {got} expected {want}")
            a = calculate_asymptotic_training_length(f)
            if f > 0 and not (abs(a - 1 / f) <= 1e-9 / f and got <= a * (1 + 1e-9)):
                return ctx.fail("length", f"asymptotic length for forget {f}: {a}")
            if f == 0 and not a > 1e15:
                return ctx.fail("length", f"asymptotic length without forgetting: {a}")
            ctx.step()
            ctx.state(f, n)
