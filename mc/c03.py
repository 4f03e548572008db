"""C03: every history of the online linear model under OLS against batch least squares."""
import itertools

import numpy as np

from ondil.estimators import OnlineLinearModel
from ondil.methods import OrdinaryLeastSquares

from .ref import MethodSpec, RefLinear, discount
from .util import batches, close_scaled, compositions, data_matrix, maxdiff

FORGETS = [0.0, 0.01, 0.2]
ASSUMPTIONS = ["designs of full rank; batches carry positive total weight", "relative tolerance 1e-6"]
CHUNK = 20
WPATS = {
    "none": None,
    "mixed": [1.0, 2.0, 0.5, 3.0],
    "zeros": [1.0, 0.0, 2.0, 1.0, 1.0],
    "const": [2.0],
}


def BOUNDS(tier):
    m = 4 if tier == "quick" else 6
    return (
        f"first fit on k+3 rows, then every composition of {m} further rows into updates, x forget {FORGETS} x 1..3 columns x intercept on/off x scaling off/on/mask/index "
        f"x weight patterns {list(WPATS)} x driving by fit/update or partial_fit x method as string or object; plus product of large batch sizes and column counts and 300-step histories; units of X {1e-4,1,1e3} x location x y {1e-6,1,1e4} x weights {1,1e5} (updates also 1e-3) x forget down to 1e-6"
    )


def cases(tier):
    m = 4 if tier == "quick" else 6
    for j in (1, 2, 3):
        for forget in FORGETS:
            for fi in (True, False):
                for sc in ("no", "yes", "mask", "index"):
                    for wp in WPATS:
                        yield ("hist", m, j, forget, fi, sc, wp)
    for j in (1, 2, 5, 12):
        for forget in (0.0, 0.004):
            for fi in (True, False):
                for sc in ("no", "yes"):
                    yield ("big", j, forget, fi, sc)
    for forget in FORGETS:
        for sc in ("no", "yes"):
            yield ("long", forget, sc)
    for forget in FORGETS + [1e-6, 1e-4, 0.6]:
        yield ("scale", forget)


def warmup():
    X = data_matrix(8, 2)
    m = OnlineLinearModel(forget=0.1).fit(X, X[:, 0] + 1)
    m.update(X[:1], X[:1, 0])
    m.update(X[:2], X[:2, 0])
    m.predict(X)


def weights(wp, n):
    pat = WPATS[wp]
    if pat is None:
        return np.ones(n)
    return np.array([pat[i % len(pat)] for i in range(n)])


def selection(sc, j):
    if sc == "no":
        return False
    if sc == "yes":
        return True
    if sc == "mask":
        m = np.zeros(j, dtype=bool)
        m[-1] = True
        return m
    return np.array([0])


def response(X):
    n = X.shape[0]
    e = data_matrix(n, 1, 4)[:, 0]
    return 1.5 + X @ np.linspace(1.0, -2.0, X.shape[1]) + 0.3 * e


def wls(X, y, w, forget, fi):
    D = np.hstack([np.ones((len(X), 1)), X]) if fi else X
    f = np.sqrt(discount(len(y), forget) * w)
    return np.linalg.lstsq(D * f[:, None], y * f, rcond=None)[0]


def verify(ctx, est, ref, X, y, w, forget, fi, sel, probe, tag, tol):
    ctx.step()
    coef = np.asarray(est.coef_)
    if not close_scaled(coef, ref.coef, tol, scale=max(1.0, np.abs(ref.coef).max())):
        ctx.fail("coef:" + tag, f"coef {coef} expected {ref.coef}")
        return False
    if sel is False:
        e = wls(X, y, w, forget, fi)
        if not close_scaled(coef, e, tol * 10, scale=max(1.0, np.abs(e).max())):
            ctx.fail("wls:" + tag, f"coef {coef} batch solution {e}")
            return False
    if not close_scaled(est.beta, coef, 1e-12):
        ctx.fail("beta:" + tag, "beta differs from coef_")
        return False
    p = est.predict(probe)
    e = ref.predict(probe)
    if p.shape != (len(probe),) or not close_scaled(p, e, tol * 10, scale=max(1.0, np.abs(e).max())):
        ctx.fail("predict:" + tag, f"{p} expected {e}")
        return False
    yp = response(probe) + np.array([0.5, -0.25, 1.0, 0.0])[: len(probe)]
    s = est.score(probe, yp)
    es = 1 - np.sum((yp - e) ** 2) / np.sum((yp - yp.mean()) ** 2)
    if not close_scaled(s, es, tol * 100, scale=max(1.0, abs(es))):
        ctx.fail("score:" + tag, f"{s} expected {es}")
        return False
    if not close_scaled(float(est.n_observations_), w.sum(), 1e-9) or not close_scaled(float(est.n_samples_), w.sum(), 1e-9):
        ctx.fail("nobs:" + tag, f"{est.n_observations_} expected {w.sum()}")
        return False
    ctx.state(coef)
    return True


def play(ctx, X, y, w, parts, forget, fi, sel, tag, partial=False, obj=False, none=False, tol=1e-7, every=True):
    ref = RefLinear(MethodSpec("ols"), forget, sel, fi, False, "bic", X.shape[1])
    est = OnlineLinearModel(forget=forget, scale_inputs=sel, fit_intercept=fi, method=OrdinaryLeastSquares() if obj else "ols")
    pos = 0
    probe = data_matrix(4, X.shape[1], 9)
    Xc, yc, wc = X.copy(), y.copy(), w.copy()
    for k, m in enumerate(parts):
        s = slice(pos, pos + m)
        sw = None if none else w[s]
        if partial:
            r = est.partial_fit(X[s], y[s], sample_weight=sw)
        elif k == 0:
            r = est.fit(X[s], y[s], sample_weight=sw)
        else:
            r = est.update(X[s], y[s], sample_weight=sw)
        if r is not est:
            ctx.fail("self:" + tag, "call does not return the estimator")
            return False
        ref.add(X[s], y[s], w[s])
        pos += m
        if every or k == len(parts) - 1:
            if not verify(ctx, est, ref, X[:pos], y[:pos], w[:pos], forget, fi, sel, probe, tag, tol):
                ctx.violations[-1]["msg"] += f" parts={parts} step={k}"
                return False
    if not (np.array_equal(X, Xc) and np.array_equal(y, yc) and np.array_equal(w, wc)):
        ctx.fail("mutates:" + tag, "input data modified")
    ctx.trace()
    ctx.outcome(est.coef_)
    return True


def run_case(case, ctx):
    kind = case[0]
    if kind == "hist":
        _, m, j, forget, fi, sc, wp = case
        n0 = j + 3
        n = n0 + m
        for variant in (0, 1):
            X = data_matrix(n, j, variant)
            y = response(X)
            w = weights(wp, n)
            sel = selection(sc, j)
            for comp in compositions(m):
                parts = (n0,) + comp
                if not all(w[s].sum() > 0 for s in batches(parts)):
                    continue
                for partial, obj in ((False, False), (True, False), (False, True)):
                    if not play(ctx, X, y, w, parts, forget, fi, sel, f"{sc}:{wp}", partial, obj, wp == "none"):
                        return
            # the whole history in a single fit, too
            if not play(ctx, X, y, w, (n,), forget, fi, sel, f"{sc}:{wp}", False, False, wp == "none"):
                return
    elif kind == "big":
        _, j, forget, fi, sc = case
        for s1 in (2 * j + 3, 64, 300):
            for s2 in (1, 2, 17, 65, 130, 500):
                for tail in ((), (1, 3), (40,)):
                    parts = (s1, s2) + tail
                    n = sum(parts)
                    X = data_matrix(n, j, 1)
                    y = response(X)
                    w = weights("mixed", n)
                    if not play(ctx, X, y, w, parts, forget, fi, selection(sc, j), "big", tol=1e-6):
                        return
    elif kind == "long":
        _, forget, sc = case
        X = data_matrix(320, 3, 0)
        y = response(X)
        w = weights("mixed", 320)
        play(ctx, X, y, w, (20,) + (1,) * 300, forget, True, selection(sc, 3), "long", tol=1e-5, every=False)
        play(ctx, X, y, w, (20,) + (5, 1, 4) * 30, forget, True, selection(sc, 3), "long", tol=1e-5, every=False)
    elif kind == "scale":
        _, forget = case
        for xs, xo, ys, ws, sel, fi in itertools.product((1e-4, 1.0, 1e3), (0.0, 5.0), (1e-6, 1.0, 1e4), ((1.0, 1.0), (1.0, 1e-3), (1e5, 1.0)), (True, False), (True, False)):
            if sel is False and fi and xs != 1.0:
                continue  # unscaled columns next to a column of ones: conditioning is the user's choice
            X = data_matrix(12, 2, 0)
            y = response(X) * ys
            X = (X + xo) * xs
            w = weights("mixed", 12) * ws[0]
            w[7:] *= ws[1]
            for parts in ((12,), (6, 6), (6, 1, 2, 3), (7, 1, 1, 1, 1, 1)):
                ref = RefLinear(MethodSpec("ols"), forget, sel, fi, False, "bic", 2)
                est = OnlineLinearModel(forget=forget, scale_inputs=sel, fit_intercept=fi)
                for k, s in enumerate(batches(parts)):
                    (est.fit if k == 0 else est.update)(X[s], y[s], sample_weight=w[s])
                    ref.add(X[s], y[s], w[s])
                    ctx.step()
                    if not np.all(np.abs(est.coef_ - ref.coef) <= 1e-7 * np.abs(ref.coef).max()):
                        return ctx.fail("coef:scale", f"units x {xs} (location {xo}), y {ys}, weights {ws}, scaling {sel}, intercept {fi}, forget {forget}, parts {parts}, step {k}: {est.coef_} expected {ref.coef}")
                    P = (data_matrix(4, 2, 9) + xo) * xs
                    got, exp = est.predict(P), ref.predict(P)
                    size = (np.abs(np.hstack([np.ones((4, 1)), P]) if fi else np.abs(P)).max() if sel is False else 10.0) * np.abs(ref.coef).max()
                    if got.shape != (4,) or not np.all(np.abs(got - exp) <= 1e-6 * size):
                        return ctx.fail("predict:scale", f"units x {xs} (location {xo}), y {ys}, weights {ws}, scaling {sel}, intercept {fi}, forget {forget}, parts {parts}, step {k}: {got} expected {exp}")
                    yp = exp + np.array([0.5, -0.25, 1.0, 0.0]) * np.abs(exp).max()
                    es = 1 - np.sum((yp - exp) ** 2) / np.sum((yp - yp.mean()) ** 2)
                    if not abs(est.score(P, yp) - es) <= 1e-4 * (1 + abs(es)):
                        return ctx.fail("score:scale", f"units x {xs} (location {xo}), y {ys}, weights {ws}, scaling {sel}, intercept {fi}, forget {forget}, parts {parts}, step {k}: {est.score(P, yp)} expected {es}")
                ctx.trace()
                ctx.state(forget, xs, xo, ys, ws, sel, fi, parts)
