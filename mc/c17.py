"""C17: every row order of a batch, every column order and a lattice of unit changes, over fit/update histories; the untransformed run as oracle."""
import itertools

import numpy as np

from ondil import OnlineScaler
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, Ridge

from . import laws
from . import subjects as sb
from .gamdata import BASE, ROUNDTOL, make_data, make_dist
from .subjects import call, diff, observe

ASSUMPTIONS = [
    "coordinate descent run to tolerance 1e-12; relative tolerance 1e-6 for the comparisons",
    "column order for least squares and ridge (the active-set rule of the path methods may depend on the visiting order)",
    "fixed numbers of iterations, so that no stopping rule compares deviances within rounding; StudentT and JSU: row order only in updates (their start values come from a numerical optimiser)",
]
CHUNK = 1
UNITS = ((1e-3, 0.0), (1e-8, 0.0), (1e7, 0.0), (0.5, 3.0), (250.0, -1000.0), (-2.0, 1.0), (1.0, 50.0))
YUNITS = ((1e-3, 0.0), (1e-9, 0.0), (1e7, 0.0), (1000.0, -400.0), (-2.5, 3.0), (1.0, 100.0))


def BOUNDS(tier):
    return (
        f"scaler, {len(LIN)} linear models and 17 families: all 24 row orders of a 4-row update (at both update positions), rotations/reversal/adjacent swaps of the first fit; all 6 column orders; "
        f"covariate units x -> a*x+b with (a,b) in {UNITS} for every non-empty subset of columns; response units {YUNITS} for linear models; forget 0 (row order) and 0/0.03 (otherwise); weights uniform/mixed"
    )


def cases(tier):
    for name in laws.LAWS:
        for m in ("ols", "lasso"):
            yield ("gamrows", name, m)
            yield ("gamunits", name, m)
        yield ("gamcols", name)
    for m in LIN:
        yield ("rows", m)
        yield ("units", m)
        if "asso" not in m and m != "enet":
            yield ("cols", m)
        if m not in ("scaler", "enet"):  # the quadratic part of the elastic-net penalty is not unit free
            yield ("yunits", m)


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


TIGHT = dict(tolerance=1e-12, max_iterations=5000)
LIN = {
    "scaler": lambda **k: OnlineScaler(**k),
    "ols": lambda **k: OnlineLinearModel(method="ols", **k),
    "lasso": lambda **k: OnlineLinearModel(method=LassoPath(lambda_n=6, **TIGHT), **k),
    "enet": lambda **k: OnlineLinearModel(method=ElasticNetPath(alpha=0.5, lambda_n=6, **TIGHT), ic="aic", **k),
    "ridge": lambda **k: OnlineLinearModel(method=Ridge(lambda_reg=0.8, **TIGHT), **k),
    "olasso": lambda **k: OnlineLasso(lambda_n=6, **TIGHT, **k),
}
SPLITS = (slice(0, 12), slice(12, 16), slice(16, 20))


def history(mk, X, y, w, splits):
    """Observed states after every call, probes given per call."""
    e = mk()
    for i, s in enumerate(splits):
        call(e, "fit" if i == 0 else "update", X[s], y[s], None if w is None else w[s])
        yield e


def first_orders(n):
    r = list(range(n))
    yield r[::-1]
    for k in (1, n // 3, n // 2):
        yield r[k:] + r[:k]
    for k in range(n - 1):
        yield r[:k] + [r[k + 1], r[k]] + r[k + 2 :]


def row_plans(n0, first=True):
    ident = list(range(n0 + 8))
    for pos in (n0, n0 + 4):
        for p in list(itertools.permutations(range(4)))[1:]:
            o = list(ident)
            o[pos : pos + 4] = [pos + k for k in p]
            yield o
    if first:
        for f in first_orders(n0):
            yield f + ident[n0:]
        yield ident[:n0][::-1] + [n0 + 3, n0 + 2, n0 + 1, n0] + [n0 + 7, n0 + 6, n0 + 5, n0 + 4]


def usable(o):
    return all(np.all(np.isfinite(v)) for v in o.values()) and np.abs(o["t"]).max() < 1e6


def compare_rows(ctx, tag, mk, X, y, w, splits, plans, probe):
    base = [observe(e, probe) for e in history(mk, X, y, w, splits)]
    if not all(usable(b) for b in base):
        ctx.outcome("out of range")
        return
    for o in plans:
        for i, e in enumerate(history(mk, X[o], y[o], None if w is None else w[o], splits)):
            ctx.step()
            d = diff(observe(e, probe), base[i], 1e-6)
            if d:
                return ctx.fail("rows", f"{tag}: row order {o} changes the result after call {i}: {d}")
        ctx.trace()
        ctx.state(tag, o)


def mixed(n):
    return np.array([1.0, 2.0, 0.5, 3.0])[np.arange(n) % 4]


def case_rows(case, ctx):
    _, m = case
    X, y = sb.lin_data(20, 1)
    for w in (None, mixed(20)):
        compare_rows(ctx, f"{m} weights {w is not None}", LIN[m], X, y, w, SPLITS, row_plans(12), X[:3] * 0.5)


def gam(name, method, **kw):
    P = len(BASE[name])
    eq = {p: "all" if p == 0 else (np.array([0]) if p == 1 else "intercept") for p in range(P)}
    m = LassoPath(lambda_n=5, **TIGHT) if method == "lasso" else "ols"
    return ODR(distribution=make_dist(name), method=m, **{**dict(equation=eq), **ROUNDTOL, **kw})


def case_gamrows(case, ctx):
    _, name, method = case
    n0 = 26
    X, y = make_data(name, n0 + 8, 3, 4 if name == "StudentT" else 1)
    splits = (slice(0, n0), slice(n0, n0 + 4), slice(n0 + 4, n0 + 8))
    plans = list(row_plans(n0, name not in ("StudentT", "JSU")))
    if name in ("StudentT", "JSU"):
        plans = plans[::3]
    if method == "lasso":
        plans = plans[::5] + plans[-1:]
    compare_rows(ctx, f"{name} {method}", lambda: gam(name, method, max_it_outer=1, max_it_inner=1), X, y, mixed(n0 + 8), splits, plans, X[:3] * 0.5)


def subsets():
    return [c for r in (1, 2, 3) for c in itertools.combinations(range(3), r)]


def compare_units(ctx, tag, mk, X, y, w, splits, probe, pick=None):
    base = []
    for e in history(mk, X, y, w, splits):
        base.append(observe(e, probe))
    if not all(usable(b) for b in base):
        ctx.outcome("out of range")
        return
    k = 0
    for cols in subsets():
        for a, b in UNITS:
            k += 1
            if pick and k % pick:
                continue
            A, B = np.ones(3), np.zeros(3)
            A[list(cols)], B[list(cols)] = a, b
            for i, e in enumerate(history(mk, X * A + B, y, w, splits)):
                o = observe(e, probe * A + B)
                ctx.step()
                d = diff({"t": o["t"], "n": o["n"]}, {"t": base[i]["t"], "n": base[i]["n"]}, 1e-6)
                if d:
                    return ctx.fail("units", f"{tag}: columns {cols} in units {a}*x+{b} change the predictions after call {i}: {d}")
            ctx.trace()
            ctx.state(tag, cols, a, b)


def case_units(case, ctx):
    _, m = case
    X, y = sb.lin_data(20, 1)
    for f in (0.0, 0.03):
        for w in (None, mixed(20)):
            if m == "scaler":
                # the standardised values are the predictions; a negative factor flips their sign
                base = [observe(e, X[:3]) for e in history(lambda: OnlineScaler(forget=f), X, y, w, SPLITS)]
                for a, b in UNITS:
                    for i, e in enumerate(history(lambda: OnlineScaler(forget=f), a * X + b, y, w, SPLITS)):
                        ctx.step()
                        got = e.transform(a * X[:3] + b)
                        if not np.allclose(got, np.sign(a) * base[i]["t"], rtol=1e-6, atol=1e-7):
                            return ctx.fail("units", f"scaler forget {f}: units {a}*x+{b} change the standardised values after call {i}: {got} vs {base[i]['t']}")
                    ctx.state(f, a, b)
            else:
                compare_units(ctx, f"{m} forget {f} weights {w is not None}", lambda: LIN[m](forget=f), X, y, w, SPLITS, X[:3] * 0.5)


def case_gamunits(case, ctx):
    _, name, method = case
    n0 = 26
    X, y = make_data(name, n0 + 8, 3, 4 if name == "StudentT" else 1)
    splits = (slice(0, n0), slice(n0, n0 + 4), slice(n0 + 4, n0 + 8))
    for f in (0.0, 0.03):
        slow = name in ("StudentT", "JSU")
        compare_units(ctx, f"{name} {method} forget {f}", lambda: gam(name, method, max_it_outer=1 if f else 2, max_it_inner=1, forget=f), X, y, mixed(n0 + 8), splits, X[:3] * 0.5, pick=(7 if slow else 3) if method == "ols" else 11)


def case_cols(case, ctx):
    _, m = case
    X, y = sb.lin_data(20, 1)
    probe = X[:3] * 0.5
    for f, fi, scale, w in itertools.product((0.0, 0.03), (True, False), (True, False), (None, mixed(20))):
        kw = dict(forget=f) if m == "scaler" else dict(forget=f, fit_intercept=fi, scale_inputs=scale)
        base = [observe(e, probe) for e in history(lambda: LIN[m](**kw), X, y, w, SPLITS)]
        for p in list(itertools.permutations(range(3)))[1:]:
            for i, e in enumerate(history(lambda: LIN[m](**kw), X[:, p], y, w, SPLITS)):
                o = observe(e, probe[:, p])
                b = dict(base[i])
                if m == "scaler":
                    b = {"n": b["n"], "t": b["t"][:, p], "i": b["i"][:, p]}
                else:
                    q = ([0] + [1 + k for k in p]) if fi else list(p)
                    b["c"] = b["c"][q]
                ctx.step()
                d = diff(o, b, 1e-6)
                if d:
                    return ctx.fail("cols", f"{m} {kw}: column order {p} after call {i}: {d}")
            ctx.trace()
            ctx.state(m, str(kw), p)


def case_gamcols(case, ctx):
    _, name = case
    n0 = 26
    X, y = make_data(name, n0 + 8, 3, 4 if name == "StudentT" else 1)
    w = mixed(n0 + 8)
    splits = (slice(0, n0), slice(n0, n0 + 4), slice(n0 + 4, n0 + 8))
    probe = X[:3] * 0.5
    P = len(BASE[name])

    def eqs(inv):
        e = {p: "intercept" for p in range(P)}
        e[0] = "all"
        if P > 1:
            e[1] = np.array([inv[0], inv[2]])
        return e

    for f, mm in ((0.0, "ols"), (0.03, "ols"), (0.0, "ridge")):
        mk = lambda inv: ODR(distribution=make_dist(name), method="ols" if mm == "ols" else Ridge(lambda_reg=0.5, **TIGHT), equation=eqs(inv), forget=f, max_it_outer=1, max_it_inner=1, **ROUNDTOL)
        base = [observe(e, probe) for e in history(lambda: mk((0, 1, 2)), X, y, w, splits)]
        if not all(usable(b) for b in base):
            ctx.outcome("out of range")
            continue
        perms = list(itertools.permutations(range(3)))[1:]
        for p in perms if name not in ("StudentT", "JSU") else perms[::2]:
            inv = [p.index(k) for k in range(3)]
            for i, e in enumerate(history(lambda: mk(inv), X[:, p], y, w, splits)):
                o = observe(e, probe[:, p])
                b = dict(base[i])
                b["c0"] = b["c0"][[0] + [1 + k for k in p]]
                ctx.step()
                d = diff(o, b, 1e-6)
                if d:
                    return ctx.fail("cols", f"{name} {mm} forget {f}: column order {p} after call {i}: {d}")
            ctx.trace()
            ctx.state(name, mm, f, p)


def case_yunits(case, ctx):
    _, m = case
    X, y = sb.lin_data(20, 1)
    probe = X[:3] * 0.5
    for f, scale, w in itertools.product((0.0, 0.03), (True, False), (None, mixed(20))):
        mk = lambda: LIN[m](forget=f, scale_inputs=scale)
        base = [observe(e, probe) for e in history(mk, X, y, w, SPLITS)]
        for a, b in YUNITS:
            for i, e in enumerate(history(mk, X, a * y + b, w, SPLITS)):
                o = observe(e, probe)
                ctx.step()
                for k in ("t", "pp"):
                    if k in o:
                        want = a * base[i][k] + b
                        if not np.allclose(o[k], want, rtol=1e-6, atol=1e-6 * (abs(a) + abs(b))):
                            return ctx.fail("yunits", f"{m} forget {f} scale {scale}: response in units {a}*y+{b}: predictions {o[k].ravel()[:6]} expected {want.ravel()[:6]} after call {i}")
            ctx.trace()
            ctx.state(m, f, scale, a, b)
