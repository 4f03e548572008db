"""C06: the initial distributional fit: exact iterations and the likelihood equations at convergence."""
import itertools

import numpy as np

from ondil.estimators import OnlineDistributionalRegression as ODR

from . import gamdata, laws
from .c10 import refs
from .c09 import dref
from .gamdata import BASE, build, make_data, make_dist, quiet, weights
from .gamref import Undecided
from .ref import MethodSpec, RefScaler, discount
from .util import close_scaled

ASSUMPTIONS = [
    "exact-iteration mode: max_it_inner=1 and zero tolerances, so that exactly K iterations run unless the deviance increases; derivatives and start values of the families as implemented (decided by C08-C10)",
    "convergence mode: tolerances 1e-14; judged by a score computed from independently written densities and links; |score| <= 2e-3 * sqrt(information) (6e-2 for the slowly converging four-parameter JSU)",
    "one common forget factor in convergence mode (with different factors no joint objective exists)",
]
CHUNK = 4
TIGHT = dict(tolerance=1e-13, max_iterations=20000)
EQS = {
    "default": {0: "all"},
    "both": {0: "all", 1: "all"},
    "cols": {0: [0, 2], 1: [1]},
    "mask": {0: [True, False, True], 1: "intercept"},
    "icept": {0: "intercept", 1: [2, 0]},
}
ALT = {  # alternative links per family (parameter -> link)
    "Normal": [{1: "InverseSoftPlus"}, {1: "Sqrt"}, {1: "LogIdent"}], "NormalMeanVariance": [{1: "InverseSoftPlus"}], "StudentT": [{2: "InverseSoftPlusShiftTwo"}, {1: "InverseSoftPlus"}, {2: "Log"}],
    "JSU": [{1: "InverseSoftPlus"}, {3: "InverseSoftPlus"}], "Gamma": [{0: "InverseSoftPlus"}, {1: "Sqrt"}, {0: "LogIdent"}], "Beta": [], "BetaInflated": [{2: "InverseSoftPlus"}], "BetaInflatedZero": [{2: "InverseSoftPlus"}],
    "ZeroAdjustedGamma": [{0: "InverseSoftPlus"}], "LogNormal": [{1: "InverseSoftPlus"}], "LogNormalMedian": [{0: "InverseSoftPlus"}], "Logistic": [{1: "InverseSoftPlus"}],
    "Exponential": [{0: "InverseSoftPlus"}, {0: "Sqrt"}], "Gumbel": [{1: "InverseSoftPlus"}], "ReverseGumbel": [{1: "InverseSoftPlus"}], "InverseGaussian": [{0: "InverseSoftPlus"}], "InverseGamma": [{1: "InverseSoftPlus"}],
}


def BOUNDS(tier):
    return (
        "17 families x 5 equations x forget {0,.03,per parameter} x 4 weight patterns x scaling/intercept options x K=1..3 iterations; alternative links; all parameter orders (2-3 parameters) and 6 orders (4); "
        "ols/ridge/lasso/elastic net per parameter; units of y {1e-4..1e3}, X {1e-5,1e5}, weights {.2,1e5}, forget down to 1e-6; convergence certificates for 17 families x equations x forget x weights x links"
    )


def cases(tier):
    reps = (1,) if tier == "quick" else (1, 2, 4)
    for seed in reps:
        for name in laws.LAWS:
            for forget in (0.0, 0.03):
                yield ("conv", name, forget, seed)
        for name in laws.LAWS:
            for eqn in EQS:
                for forget in ("0", "0.03", "dict"):
                    yield ("iter", name, eqn, forget, seed)
            yield ("links", name, seed)
            yield ("order", name, seed)
            yield ("units", name, seed)
        for u in ("1e7", "1e-6"):
            yield ("clip", "Normal", u, seed)
        for name in ("Normal", "Gamma", "StudentT", "Beta", "JSU", "Logistic"):
            for mv in range(5):
                yield ("methods", name, mv, seed)
        for name in laws.LAWS:
            yield ("shape", name, seed)
            yield ("inner", name, seed)
        for name in ("Normal", "Gamma", "Logistic", "StudentT"):
            yield ("step", name, seed)


def warmup():
    gamdata.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def compare(ctx, est, ref, X, y, w, sw, tag, tol=1e-6, floor=1.0):
    try:
        ref.fit(X, y, w)
    except (Undecided, np.linalg.LinAlgError):
        ctx.outcome("undecided")
        return True
    if any(not np.all(np.isfinite(ref.coef[p])) or np.abs(ref.coef[p]).max() > 1e6 * max(1.0, floor) for p in range(ref.P)):
        ctx.outcome("diverged")
        return True
    with quiet():
        est.fit(X, y, sample_weight=w if sw else None)
    ctx.step(ref.K)
    for p in range(ref.P):
        c = np.asarray(est.coef_[p])
        if c.shape != ref.coef[p].shape or not np.all(np.abs(c - ref.coef[p]) <= tol * max(floor, np.abs(ref.coef[p]).max())):
            ctx.fail("coef", f"{tag}: parameter {p}: {c} expected {ref.coef[p]}")
            return False
        if not close_scaled(float(est.n_training_[p]), ref.n_eff(p), 1e-9):
            ctx.fail("n_training", f"{tag}: parameter {p}: {est.n_training_[p]} expected {ref.n_eff(p)}")
            return False
    probe = X[:3] * 0.7 + 0.1
    T, E = est.predict_distribution_parameters(probe), ref.predict(probe)
    if not close_scaled(T, E, tol * 50, scale=max(1.0, np.abs(E).max())):
        ctx.fail("predict", f"{tag}: {T.tolist()} expected {E.tolist()}")
        return False
    ctx.state([est.coef_[p] for p in range(ref.P)])
    ctx.trace()
    return True


def fdict(forget, P):
    return {"0": 0.0, "0.03": 0.03, "dict": {p: (0.05, 0.0, 0.02, 0.1)[p] for p in range(P)}}[forget]


def eq_for(eqn, P):
    e = EQS[eqn]
    return {p: v for p, v in e.items() if p < P}


def case_iter(case, ctx):
    _, name, eqn, forget, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 30, 3, seed)
    for wp in gamdata.WPATS:
        w = weights(wp, 30)
        for opt in ("plain", "scaled", "mask", "noint"):
            for K in (1, 2, 3):
                eq = eq_for(eqn, P)
                fi = True
                if opt == "noint":
                    if eq.get(0) == "intercept" or (wp not in ("none", "mixed")):
                        continue
                    fi = {p: not (p == 0) for p in range(P)}
                scale = {"plain": False, "scaled": True, "mask": np.array([False, True, True]), "noint": True}[opt]
                est, ref = build(name, 3, eq=eq, forget=fdict(forget, P), fit_intercept=fi, scale=scale, K=K)
                if not compare(ctx, est, ref, X, y, w, wp != "none", f"{name} {eqn} forget={forget} w={wp} {opt} K={K}"):
                    return


def case_links(case, ctx):
    _, name, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 30, 2, seed)
    for links in ALT[name]:
        for forget in (0.0, 0.03):
            for K in (1, 2, 3):
                for wp in ("none", "mixed"):
                    est, ref = build(name, 2, links=links, eq={0: "all", 1: [0]} if P > 1 else {0: "all"}, forget=forget, K=K)
                    if not compare(ctx, est, ref, X, y, weights(wp, 30), wp != "none", f"{name} links={links} forget={forget} K={K}"):
                        return


def case_order(case, ctx):
    _, name, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 30, 2, seed)
    for order in itertools.permutations(range(P)):
        for K in (1, 2, 3):
            for forget in (0.0, {p: (0.05, 0.0, 0.02, 0.1)[p] for p in range(P)}):
                est, ref = build(name, 2, eq={0: "all", 1: [1]} if P > 1 else {0: "all"}, forget=forget, K=K, order=order)
                if not compare(ctx, est, ref, X, y, weights("mixed", 30), True, f"{name} order={order} K={K} forget={forget}"):
                    return


def case_units(case, ctx):
    """The same fits with the response, the covariates or the weights in other units; very small forget factors; converged fits too."""
    _, name, seed = case
    P = len(BASE[name])
    X0, y0 = make_data(name, 30, 2, seed)
    w0 = weights("mixed", 30)
    real = laws.LAWS[name].hi != 1
    for ys, xs, ws in [(u, 1.0, 1.0) for u in (1e-4, 1e-2, 30.0, 1e3) if real] + [(1.0, 1e-5, 1.0), (1.0, 1e5, 1.0), (1.0, 1.0, 0.2), (1.0, 1.0, 1e5)]:
        X, y, w = X0 * xs, y0 * ys, w0 * ws
        for forget in (0.0, 1e-6, 1e-4, 0.03):
            for K in (1, 2, 3):
                for scale in (True, False) if xs == 1.0 else (True,):
                    est, ref = build(name, 2, eq={0: "all", 1: [1]} if P > 1 else {0: "all"}, forget=forget, scale=scale, K=K)
                    if not compare(ctx, est, ref, X, y, w, True, f"{name} units y {ys} x {xs} w {ws} forget={forget} K={K} scale={scale}", tol=1e-7, floor=min(1.0, ys)):
                        return


def case_clip(case, ctx):
    """Responses so large or small that every working weight meets the fixed clip of [1e-10, 1e10]."""
    _, name, u, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 40, 2, seed)
    y = y * float(u)
    est = ODR(distribution=make_dist(name), equation={0: "all", 1: "intercept"}, abs_tol_inner=1e-14, abs_tol_outer=1e-14, rel_tol_inner=1e-15, rel_tol_outer=1e-15, max_it_outer=60, max_it_inner=30)
    with quiet():
        est.fit(X, y)
    sc = score_of(name, None, est, X / 1.0, y, np.ones(40), 0.0, {0: "all"}, True, P)
    ctx.step()
    ctx.trace()
    if not max(sc) <= 2e-3:
        ctx.fail(f"working-weights-clipped:{name}:y-units={u}", f"{name} with the response in units of {u}: scaled score {sc} at convergence")


def method_variants(mv, P):
    ridge = MethodSpec("ridge", lambda_reg=2.0, **TIGHT)
    lasso = MethodSpec("lasso", lambda_n=8, lambda_eps=1e-2, **TIGHT)
    enet = MethodSpec("elasticnet", lambda_n=8, lambda_eps=1e-2, alpha=0.4, start_value_initial="previous_lambda", start_value_update="average", **TIGHT)
    ols = MethodSpec("ols")
    seqs = [(ridge, ols), (lasso, ridge), (enet, lasso), (ols, enet), (ridge, enet)]
    a, b = seqs[mv]
    return {p: (a if p == 0 else b if p == 1 else ols) for p in range(P)}


def case_methods(case, ctx):
    _, name, mv, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 36, 4, seed)
    spec = method_variants(mv, P)
    for forget in (0.0, 0.02):
        for K in (1, 2):
            for ri in (False, True, {0: True, 1: False}):
                for wp in ("none", "mixed"):
                    ri_ = {p: ri.get(p, False) for p in range(P)} if isinstance(ri, dict) else ri
                    est, ref = build(name, 4, eq={0: "all", 1: [0, 3]}, forget=forget, K=K, method=spec, regularize_intercept=ri_)
                    if not compare(ctx, est, ref, X, y, weights(wp, 36), wp != "none", f"{name} methods {mv} forget={forget} K={K} regint={ri} w={wp}"):
                        return


def case_inner(case, ctx):
    """Several inner iterations per parameter: each is one step from the values the one before it left."""
    _, name, seed = case
    P = len(BASE[name])
    for sd in range(seed, seed + 6):
        X, y = make_data(name, 40, 2, sd)
        for eq in ({0: "all"}, {0: "all", 1: [1]}, {0: "intercept", 1: "all"}):
            for forget in ("0", "dict"):
                for wp in ("none", "mixed"):
                    for M, K in ((2, 1), (3, 1), (2, 2), (3, 2)):
                        for method in (None,) if (M, K) != (2, 1) else (None, MethodSpec("lasso", lambda_n=6, **TIGHT)):
                            est, ref = build(name, 2, eq=eq_for2(eq, P), forget=fdict(forget, P), K=K, M=M, method=method)
                            if not compare(ctx, est, ref, X, y, weights(wp, 40), wp != "none", f"{name} {eq} forget={forget} w={wp} K={K} inner={M} {'lasso' if method else 'ols'} data {sd}"):
                                return


def eq_for2(eq, P):
    return {p: v for p, v in eq.items() if p < P}


def case_shape(case, ctx):
    """Products of large row and column counts."""
    _, name, seed = case
    for n, j in ((25, 1), (40, 8), (200, 2), (200, 8), (600, 5), (1300, 3), (90, 14)):
        X, y = make_data(name, n, j, seed)
        for forget in (0.0, 0.004):
            for K in (1, 3):
                est, ref = build(name, j, eq={0: "all", 1: "all"}, forget=forget, K=K)
                if not compare(ctx, est, ref, X, y, weights("mixed", n), True, f"{name} n={n} j={j} forget={forget} K={K}"):
                    return


def case_step(case, ctx):
    """A step size below one moves the predictor part of the way: fitted values of the second parameter see it."""
    _, name, seed = case
    X, y = make_data(name, 30, 2, seed)
    w = weights("mixed", 30)
    for s0 in (0.5, 0.8):
        for forget in (0.0, 0.03):
            est, ref = build(name, 2, eq={0: "all", 1: [0]}, forget=forget, K=1, step_size={0: s0, 1: 1.0, **({2: 1.0} if name == "StudentT" else {})})
            # reference by hand: parameter 0 full solution reported, damped fitted values go on
            d = ref.d
            sc = RefScaler(forget, True, 2)
            sc.add(X, w)
            Xs = sc.transform(X)
            fv = np.array(d.initial_values(y), dtype=float)
            f = discount(30, forget) * w
            exp = {}
            for p, st in ((0, s0), (1, 1.0)):
                D = np.hstack([np.ones((30, 1)), Xs if p == 0 else Xs[:, [0]]])
                z, wt = ref.working(y, fv, p)
                b = np.linalg.solve(D.T @ ((f * wt)[:, None] * D), D.T @ (f * wt * z))
                eta = st * (D @ b) + (1 - st) * np.asarray(d.link_function(fv[:, p], param=p))
                fv[:, p] = d.link_inverse(eta, param=p)
                exp[p] = b
            with quiet():
                est.fit(X, y, sample_weight=w)
            ctx.step()
            ctx.trace()
            for p in exp:
                if not close_scaled(np.asarray(est.coef_[p]), exp[p], 1e-6, scale=max(1.0, np.abs(exp[p]).max())):
                    return ctx.fail("step-size", f"{name} step {s0} forget {forget}: parameter {p}: {est.coef_[p]} expected {exp[p]}")


def score_of(name, links, est, X, y, w, forget, eq, scale, P):
    """Score of the weighted discounted log-likelihood at the reported coefficients (own densities, own links)."""
    L = laws.LAWS[name]
    n = len(y)
    sc = RefScaler(forget, scale, X.shape[1])
    sc.add(X, w)
    Xs = sc.transform(X)
    d = make_dist(name, links)
    D, T, slope = {}, [], []
    for p in range(P):
        e = eq.get(p, "intercept")
        one = np.ones((n, 1))
        D[p] = one if (isinstance(e, str) and e == "intercept") else np.hstack([one, Xs if isinstance(e, str) else Xs[:, np.asarray(e)]])
        eta = D[p] @ np.asarray(est.coef_[p])
        kind = type(d.links[p]).__name__
        R = refs(kind, 2.0 if kind.endswith("Two") else 0.0, 5)
        T.append(R.gi(eta))
        slope.append(R.dgi(eta))
    f = discount(n, forget) * w
    out = []
    for p in range(P):
        h = 1e-5 * np.maximum(np.abs(T[p]), 0.1)

        def lp(s):
            t = list(T)
            t[p] = T[p] + s * h
            return L.logpdf(y, *t)

        g = (-lp(2) + 8 * lp(1) - 8 * lp(-1) + lp(-2)) / (12 * h) * slope[p]
        Tm = np.column_stack(T)
        wt = np.maximum(-np.asarray(d.dl2_dp2(y, Tm, param=p)) * slope[p] ** 2, 1e-12)
        s = D[p].T @ (f * g)
        info = (f * wt) @ D[p] ** 2
        out.append(float(np.max(np.abs(s) / np.sqrt(info + 1e-12))))
    return out


CONV_EQ = {"default": {0: "all"}, "both": {0: "all", 1: [0]}}


def case_conv(case, ctx):
    _, name, forget, seed = case
    P = len(BASE[name])
    n = 70
    X, y = make_data(name, n, 2, seed)
    for links in [None] + ALT[name]:
        for eqn, eq in CONV_EQ.items():
            if P == 1 and eqn == "both":
                continue
            for wp in ("none", "mixed", "zeros"):
                for scale in (True, False):
                    if name == "JSU" and (links is not None or wp == "zeros" or not scale) and seed == 1:
                        continue
                    w = weights(wp, n)
                    est = ODR(distribution=make_dist(name, links), equation={p: (np.array(v) if not isinstance(v, str) else v) for p, v in {q: eq.get(q, "intercept") for q in range(P)}.items()},
                              forget=forget, method="ols", scale_inputs=scale, abs_tol_inner=1e-14, abs_tol_outer=1e-14, rel_tol_inner=1e-15, rel_tol_outer=1e-15,
                              max_it_outer=60 if name != "JSU" else 100, max_it_inner=30)
                    with quiet():
                        est.fit(X, y, sample_weight=None if wp == "none" else w)
                    sc = score_of(name, links, est, X, y, w, forget, eq, scale, P)
                    ctx.step(int(est._it_outer) if hasattr(est, "_it_outer") else 1)
                    ctx.state([est.coef_[p] for p in range(P)])
                    if not max(sc) <= (0.06 if name == "JSU" else 2e-3):
                        return ctx.fail("score", f"{name} links={links} eq={eqn} forget={forget} w={wp} scale={scale}: scaled score {sc} at convergence")
                    ctx.trace()
