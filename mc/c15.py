"""C15: every prediction method of every family against one reconstructed distribution; row-wise independence over all sub-batches."""
import itertools

import numpy as np

from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath

from . import gamdata, laws
from . import subjects as sb
from .c06 import ALT
from .gamdata import BASE, make_data, make_dist, quiet, weights
from .ref import RefScaler
from .subjects import call
from .util import close_scaled

ASSUMPTIONS = ["link functions and laws themselves are decided by C08/C10", "quantile levels between 1e-5 and 0.99975; moderate covariates (the predictor stays in the links' working range)"]
CHUNK = 1
QS = (1e-5, 0.0503, 0.25, 0.5, 2 / 3, 0.95, 0.99975)


def BOUNDS(tier):
    return (
        "17 families x default and alternative links x 4 equation/intercept/scaling options x ols/lasso x after fit and each of 2 updates; all sub-batches, permutations and duplications of 4 prediction rows; all subsets of up to 3 of 7 quantile levels "
        "in any given order plus arrays of length 1-7 (also as long as the batch); linear models: 5 methods x options, full paths; rows up to 1000 times outside the training range and columns in units 1e-9 to 1e10; batches of 21 sizes from 1 to 10001 rows, 9 to 999 levels"
    )


def cases(tier):
    for name in laws.LAWS:
        for li in range(1 + len(ALT[name])):
            for opt in range(4):
                yield ("gam", name, li, opt, "quick")
                if tier == "thorough":
                    yield ("gam", name, li, opt, "lasso")
            if tier == "quick" and li == 0:
                yield ("gam", name, li, 0, "lasso")
    for m in range(5):
        yield ("lin", m)
        yield ("linfar", m)
    for name in laws.LAWS:
        yield ("quant", name)
        yield ("large", name)
        yield ("far", name)


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.isfinite(b) & (np.abs(a - b) <= tol * (1e-3 + np.abs(b)))) | (a == b) | (np.isnan(a) & np.isnan(b))))


OPTS = (
    dict(eq=("all", "intercept"), fi=True, scale=True), dict(eq=((0, 2), "all"), fi=True, scale=False), dict(eq=((2, 1), (1,)), fi=True, scale=np.array([True, False, True])), dict(eq=("all", "all"), fi={0: False, 1: False}, scale=True),
    dict(eq=("all", "all"), fi={0: False, 1: False}, scale=False),
)


def setup(name, li, oi, method):
    P = len(BASE[name])
    links = ([None] + ALT[name])[li]
    o = OPTS[oi]
    eq = {0: o["eq"][0]}
    if P > 1:
        eq[1] = o["eq"][1]
    fi = o["fi"] if isinstance(o["fi"], bool) else {p: o["fi"].get(p, True) for p in range(P)}
    eqn = {p: (np.array(v) if not isinstance(v, str) else v) for p, v in {q: eq.get(q, "intercept") for q in range(P)}.items()}
    est = ODR(distribution=make_dist(name, links), equation=eqn, fit_intercept=fi, scale_inputs=o["scale"], forget={p: 0.01 * (p + 1) for p in range(P)}, method=LassoPath(lambda_n=6) if method == "lasso" else "ols", max_it_outer=1, max_it_inner=1)
    return P, eqn, (fi if isinstance(fi, dict) else {p: fi for p in range(P)}), o, est


def case_gam(case, ctx):
    _, name, li, oi, method = case
    P, eq, fi, o, est = setup(name, li, oi, method)
    L = laws.LAWS[name]
    n0 = 40
    X, y = make_data(name, n0 + 4, 3, 1)
    w = weights("mixed", n0 + 4)
    scaler = RefScaler(0.01, o["scale"], 3)
    tag = f"{name} links {([None] + ALT[name])[li]} option {oi} {method}"
    probes = X[[0, 5, 9, 13]] * 0.8 + 0.05
    for step, s in enumerate((slice(0, n0), slice(n0, n0 + 1), slice(n0 + 1, n0 + 4))):
        call(est, "fit" if step == 0 else "update", X[s], y[s], w[s])
        scaler.add(X[s], w[s])
        ctx.step()
        Xs = scaler.transform(probes)
        eta = np.zeros((4, P))
        parts = []
        for p in range(P):
            e = eq[p]
            D = np.ones((4, 1)) if isinstance(e, str) and e == "intercept" else (Xs if isinstance(e, str) else Xs[:, e])
            if not (isinstance(e, str) and e == "intercept") and fi[p]:
                D = np.hstack([np.ones((4, 1)), D])
            eta[:, p] = D @ est.coef_[p]
            parts.append(D * est.coef_[p])
        if not np.all(np.isfinite(eta)) or np.any(np.abs(eta) > 8):
            ctx.outcome("out of range")
            return
        link = est.predict_distribution_parameters(probes, what="link")
        if not near(link, eta, 1e-7):
            return ctx.fail("link", f"{tag} step {step}: link predictions {link.tolist()} expected {eta.tolist()}")
        theta = est.predict_distribution_parameters(probes)
        want = np.column_stack([est.distribution.link_inverse(np.ascontiguousarray(eta[:, p]), param=p) for p in range(P)])
        if not near(theta, want) or not near(est.predict_distribution_parameters(probes, what="response"), want):
            return ctx.fail("response", f"{tag} step {step}: parameters {theta.tolist()} expected {want.tolist()}")
        for p in range(P):
            lo, hi = est.distribution.parameter_support[p]
            if np.any(theta[:, p] < lo) or np.any(theta[:, p] > hi):
                return ctx.fail("support", f"{tag} step {step}: parameter {p} = {theta[:, p]} outside {lo, hi}")
        for what, ref in (("link", eta), ("response", want)):
            pred, contrib = est.predict_distribution_parameters(probes, what=what, return_contributions=True)
            if not near(pred, ref):
                return ctx.fail("contrib", f"{tag} step {step}: prediction next to the contributions differs ({what})")
            if len(contrib) != P:
                return ctx.fail("contrib", f"{tag}: {len(contrib)} contribution arrays")
            for p in range(P):
                if not (near(contrib[p], parts[p], 1e-6) and np.allclose(np.sum(contrib[p], axis=1), eta[:, p], rtol=1e-7, atol=1e-8)):
                    return ctx.fail("contrib", f"{tag} step {step}: contributions of parameter {p} do not add up: {np.sum(contrib[p], axis=1)} vs {eta[:, p]}")
        th = [want[:, p] for p in range(P)]
        usable = name != "StudentT" or np.all(want[:, 2] > 1.2)
        mean, med = est.predict(probes), est.predict_median(probes)
        if usable and not near(mean, L.mean(*th), 1e-6):
            return ctx.fail("mean", f"{tag} step {step}: predicted mean {mean} expected {L.mean(*th)}")
        m = np.array([float(L.ppf(0.5, *[t[i] for t in th])) for i in range(4)])
        if not near(med, m, 1e-6):
            return ctx.fail("median", f"{tag} step {step}: predicted median {med} expected {m}")
        Q = np.array([[float(L.ppf(q, *[t[i] for t in th])) for q in QS] for i in range(4)])
        got = est.predict_quantile(probes, np.array(QS))
        if not near(got, Q, 1e-6):
            return ctx.fail("quantile", f"{tag} step {step}: quantiles {np.asarray(got).tolist()} expected {Q.tolist()}")
        if np.any(np.diff(got, axis=1) < 0):
            return ctx.fail("increasing", f"{tag} step {step}: quantiles do not increase {got.tolist()}")
        for k, q in enumerate(QS):
            for qq in (q, np.float64(q), np.array([q])):
                g = est.predict_quantile(probes, qq)
                if not near(g, Q[:, [k]], 1e-6):
                    return ctx.fail("quantile", f"{tag} step {step}: quantile {qq!r}: {np.asarray(g).tolist()} expected {Q[:, k].tolist()}")
        # row by row: all selections of rows
        full = dict(theta=theta, link=link, mean=mean, median=med, quantile=got)
        fns = dict(
            theta=est.predict_distribution_parameters, link=lambda x: est.predict_distribution_parameters(x, what="link"), mean=est.predict, median=est.predict_median, quantile=lambda x: est.predict_quantile(x, np.array(QS)),
        )
        sels = [c for r in (1, 2, 3) for c in itertools.combinations(range(4), r)] + list(itertools.permutations(range(4)))[1::5] + [(0, 0), (3, 3, 1, 1, 0, 0, 2), (2,) * 7]
        for sel in sels:
            for k, f in fns.items():
                g = f(probes[list(sel)])
                if not near(g, np.asarray(full[k])[list(sel)], 1e-8):
                    return ctx.fail("rows", f"{tag} step {step}: {k} of rows {sel} depends on the other rows")
                ctx.step()
            ctx.state(tag, step, sel)
        ctx.trace()


def case_quant(case, ctx):
    """Quantile requests of every length and order, including as many levels as rows."""
    _, name = case
    L = laws.LAWS[name]
    P, eq, fi, o, est = setup(name, 0, 0, "ols")
    X, y = make_data(name, 44, 3, 1)
    call(est, "fit", X[:40], y[:40])
    call(est, "update", X[40:], y[40:])
    for n in (1, 2, 3, 5):
        probes = X[:n] * 0.7
        th = est.predict_distribution_parameters(probes)
        ref = {q: np.array([float(L.ppf(q, *th[i])) for i in range(n)]) for q in QS}
        sets = [s for r in (1, 2, 3) for s in itertools.permutations(QS, r)] if n in (1, 3) else [s for r in (1, 2, 3) for s in itertools.combinations(QS, r)]
        sets += [QS, QS[::-1], (0.5,) * n, QS[:5], (QS[2], QS[2], QS[4], QS[4], QS[1])]
        for s in sets:
            got = est.predict_quantile(probes, np.array(s))
            want = np.column_stack([ref[q] for q in s])
            if not near(got, want, 1e-6):
                return ctx.fail("quantile", f"{name}: {n} rows, levels {s}: {np.asarray(got).tolist()} expected {want.tolist()}")
            ctx.step()
            ctx.state(name, n, s)
        ctx.trace()


SIZES = (1, 2, 7, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2049, 5000, 10001)


def case_large(case, ctx):
    """Prediction batches of every size give what the rows give alone; long lists of probabilities."""
    _, name = case
    P, eq, fi, o, est = setup(name, 0, 0, "ols")
    X, y = make_data(name, 44, 3, 1)
    call(est, "fit", X[:40], y[:40])
    call(est, "update", X[40:], y[40:])
    probes = X[[0, 5, 9, 13, 21, 33, 38]] * 0.8 + 0.05
    fns = dict(
        theta=est.predict_distribution_parameters, link=lambda x: est.predict_distribution_parameters(x, what="link"), mean=est.predict, median=est.predict_median,
        contrib=lambda x: np.hstack(est.predict_distribution_parameters(x, return_contributions=True)[1]),
    )
    one = {k: np.stack([np.asarray(f(probes[[i]]))[0] for i in range(7)]) for k, f in fns.items()}
    for n in SIZES:
        idx = (np.arange(n) * 3 + n) % 7
        for k, f in fns.items():
            if not near(f(probes[idx]), one[k][idx], 1e-8):
                return ctx.fail("large", f"{name}: {k} of {n} rows differs from the rows alone")
            ctx.step()
        ctx.state(name, n)
    qone = np.stack([est.predict_quantile(probes[[i]], np.array([0.05, 0.5, 0.9]))[0] for i in range(7)])
    for n in SIZES[:-2]:
        idx = (np.arange(n) * 3 + n) % 7
        if not near(est.predict_quantile(probes[idx], np.array([0.05, 0.5, 0.9])), qone[idx], 1e-8):
            return ctx.fail("large", f"{name}: quantiles of {n} rows differ from the rows alone")
        ctx.step()
    for m in (9, 19, 33, 64, 65, 99, 100, 101, 199, 257, 999):
        q = (np.arange(m) + 0.5) / m
        for n in (1, 3, 7, m if m < 102 else 2):
            idx = np.arange(n) % 7
            got = est.predict_quantile(probes[idx], q)
            if got.shape != (n, m) or np.any(np.diff(got, axis=1) < 0):
                return ctx.fail("levels", f"{name}: {m} levels, {n} rows: shape {got.shape} or not increasing")
            for k in (0, m // 3, m // 2, m - 1):
                if not near(got[:, k], est.predict_quantile(probes[idx], float(q[k]))[:, 0], 1e-8):
                    return ctx.fail("levels", f"{name}: level {q[k]} of {m} for {n} rows differs from the level alone")
            ctx.step()
        ctx.state(name, "levels", m)
    ctx.trace()


FAR = np.array([[1.0, 1.0, 1.0], [20.0, 1.0, 1.0], [-20.0, 3.0, 20.0], [1.0, -1000.0, 1.0], [1000.0, 1000.0, -1000.0], [0.0, 0.0, 0.0]])
UNITS = (1.0, 1e-9, 1e-4, 1e4, 1e10, np.array([1e3, 1.0, 1e-3]))


def case_far(case, ctx):
    """Predictions at rows far from the training range and with columns in other units."""
    _, name = case
    X0, y = make_data(name, 44, 3, 1)
    for u, oi in itertools.product(UNITS, (0, 1, 2, 4)):
        P, eq, fi, o, est = setup(name, 0, oi, "ols")
        X = X0 * u
        sc = RefScaler(0.01, o["scale"], 3)
        if oi in (1, 2) and np.any((np.asarray(u) < 1e-6) | (np.asarray(u) > 1e6)):
            continue  # an intercept next to unscaled columns of this size is a singular design
        for step, s in enumerate((slice(0, 40), slice(40, 44))):
            call(est, "fit" if step == 0 else "update", X[s], y[s])
            sc.add(X[s], np.ones(len(X[s])))
        ctx.step(2)
        for probes in (X0[[5]] * FAR * u, X0[[9]] * FAR[::-1] * u):
            Xs = sc.transform(probes)
            n = len(probes)
            parts = []
            for p in range(P):
                e = eq[p]
                D = np.ones((n, 1)) if isinstance(e, str) and e == "intercept" else (Xs if isinstance(e, str) else Xs[:, e])
                if not (isinstance(e, str) and e == "intercept") and fi[p]:
                    D = np.hstack([np.ones((n, 1)), D])
                parts.append(D * est.coef_[p])
            eta = np.column_stack([a.sum(1) for a in parts])
            size = np.column_stack([np.abs(a).sum(1) for a in parts])
            tag = f"{name} option {oi} columns times {u}"
            if not np.all(np.isfinite(eta)):
                ctx.outcome("out of range")
                continue
            link = est.predict_distribution_parameters(probes, what="link")
            if not np.all(np.abs(link - eta) <= 1e-7 * (1e-3 + size)):
                return ctx.fail("far", f"{tag}: link predictions {link.tolist()} expected {eta.tolist()}")
            theta = est.predict_distribution_parameters(probes)
            want = np.column_stack([est.distribution.link_inverse(np.ascontiguousarray(link[:, p]), param=p) for p in range(P)])
            if not near(theta, want, 1e-9):
                return ctx.fail("far", f"{tag}: parameters {theta.tolist()} are not the inverse links of {link.tolist()}")
            pred, contrib = est.predict_distribution_parameters(probes, what="link", return_contributions=True)
            if not near(pred, link, 1e-9) or any(not np.all(np.abs(contrib[p] - parts[p]) <= 1e-7 * (1e-3 * np.abs(parts[p]).max() + np.abs(parts[p]))) for p in range(P)):
                return ctx.fail("far", f"{tag}: contributions {[np.asarray(c).tolist() for c in contrib]} expected {[a.tolist() for a in parts]}")
            one = {k: np.concatenate([np.atleast_1d(f(probes[[i]])) for i in range(n)]) for k, f in dict(mean=est.predict, median=est.predict_median).items()}
            for k, f in dict(mean=est.predict, median=est.predict_median).items():
                if not near(f(probes), one[k], 1e-8):
                    return ctx.fail("far", f"{tag}: {k} of a far row depends on the other rows")
            ctx.step(4)
            ctx.trace()
            ctx.state(tag, probes)


def lin_of(mi):
    return [
        lambda **k: OnlineLinearModel(method="ols", **k), lambda **k: OnlineLinearModel(method=LassoPath(lambda_n=9), **k), lambda **k: OnlineLinearModel(method="elasticnet", **k),
        lambda **k: OnlineLasso(lambda_n=9, **k), lambda **k: OnlineLinearModel(method=ElasticNetPath(alpha=0.3, lambda_n=4), **k),
    ][mi]


def case_linfar(case, ctx):
    _, mi = case
    X0, y = sb.lin_data(22, 1)
    for u, uy, scale, fi in itertools.product(UNITS, (1.0, 1e-8, 1e8), (True, False), (True, False)):
        if fi and not scale and np.any((np.asarray(u) < 1e-6) | (np.asarray(u) > 1e6)):
            continue
        est = lin_of(mi)(fit_intercept=fi, scale_inputs=scale)
        sc = RefScaler(0.0, scale, 3)
        X = X0 * u
        for step, s in enumerate((slice(0, 18), slice(18, 22))):
            call(est, "fit" if step == 0 else "update", X[s], y[s] * uy)
            sc.add(X[s], np.ones(len(X[s])))
            D = sc.transform(X0[[5]] * FAR * u)
            D = np.hstack([np.ones((len(D), 1)), D]) if fi else D
            size = np.abs(D) @ np.abs(est.coef_)
            pred = est.predict(X0[[5]] * FAR * u)
            if not np.all(np.abs(pred - D @ est.coef_) <= 1e-7 * size + 1e-10 * size.max()):
                return ctx.fail("far", f"{est} columns times {u}, response times {uy}, step {step}: {pred} expected {D @ est.coef_}")
            if mi:
                path = est.predict_path(X0[[5]] * FAR * u)
                size = np.abs(D) @ np.abs(est.coef_path_.T)
                if not np.all(np.abs(path - D @ est.coef_path_.T) <= 1e-7 * size + 1e-10 * size.max()):
                    return ctx.fail("far", f"{est} columns times {u}, response times {uy}, step {step}: predictions along the path")
            ctx.step(2)
            ctx.state(mi, u, uy, scale, fi, step)
        ctx.trace()


def case_lin(case, ctx):
    _, mi = case
    mk = lin_of(mi)
    X, y = sb.lin_data(22, 1)
    w = weights("mixed", 22)
    for f, fi, scale, ic in itertools.product((0.0, 0.03), (True, False), (True, False, np.array([True, False, True])), ("aic", "bic")):
        est = mk(forget=f, fit_intercept=fi, scale_inputs=scale, ic=ic)
        sc = RefScaler(f, scale, 3)
        tag = f"{est}"
        for step, s in enumerate((slice(0, 15), slice(15, 16), slice(16, 19), slice(19, 22))):
            call(est, "fit" if step == 0 else "update", X[s], y[s], w[s])
            sc.add(X[s], w[s])
            probes = X[[1, 4, 17, 20]] * 0.9 + 0.1
            D = sc.transform(probes)
            if fi:
                D = np.hstack([np.ones((4, 1)), D])
            pred = est.predict(probes)
            if not np.allclose(pred, D @ est.coef_, rtol=1e-7, atol=1e-8):
                return ctx.fail("predict", f"{tag} step {step}: {pred} expected {D @ est.coef_}")
            if mi:
                path = est.predict_path(probes)
                if not np.allclose(path, D @ est.coef_path_.T, rtol=1e-7, atol=1e-8) or path.shape != (4, len(est.coef_path_)):
                    return ctx.fail("path", f"{tag} step {step}: path predictions of shape {path.shape} do not belong to the coefficient path")
                if not np.any(np.all(np.abs(path - pred[:, None]) < 1e-9, axis=0)):
                    return ctx.fail("selected", f"{tag} step {step}: the path predictions do not contain the selected prediction")
            for sel in [c for r in (1, 2, 3) for c in itertools.combinations(range(4), r)] + [(3, 2, 1, 0), (1, 1, 1)]:
                if not np.allclose(est.predict(probes[list(sel)]), pred[list(sel)], rtol=1e-10, atol=1e-10):
                    return ctx.fail("rows", f"{tag} step {step}: rows {sel}")
                if mi and not np.allclose(est.predict_path(probes[list(sel)]), path[list(sel)], rtol=1e-10, atol=1e-10):
                    return ctx.fail("rows", f"{tag} step {step}: path rows {sel}")
                ctx.step()
            for n in SIZES:
                idx = (np.arange(n) * 3 + n) % 4
                if not np.allclose(est.predict(probes[idx]), pred[idx], rtol=1e-10, atol=1e-10) or (mi and not np.allclose(est.predict_path(probes[idx]), path[idx], rtol=1e-10, atol=1e-10)):
                    return ctx.fail("large", f"{tag} step {step}: {n} rows differ from the rows alone")
            if not (est.beta is est.coef_ or np.array_equal(est.beta, est.coef_)):
                return ctx.fail("beta", f"{tag}: beta differs from coef_")
            ctx.state(tag, step)
        ctx.trace()
