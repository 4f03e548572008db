"""C12: an invalid call of every kind at every position of every history."""
import numpy as np
import pandas as pd
from sklearn.exceptions import NotFittedError

from ondil import OnlineScaler
from ondil.error import OutOfSupportError
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel

from . import gamdata, laws
from . import subjects as sb
from .c11 import program, solo
from .gamdata import make_data, make_dist, quiet
from .subjects import SUBJECTS, call, diff, observe

ASSUMPTIONS = [
    "invalid means: rejected by the documented input contract (non-finite, wrong shape, empty, non-numeric, outside the support, parameter outside its constraint); ValueError or TypeError count as the documented kind",
    "a rejected re-fit of an already fitted estimator is not claimed",
]
CHUNK = 1
REJECT = (ValueError, TypeError)


def BOUNDS(tier):
    return (
        f"{len(SUBJECTS)} estimator configurations x every position of a fit/update/update history x {len(kinds('gam'))} kinds of invalid data (non-finite values at every cell) x fit/update/partial_fit/predictions, singly and all in a row; "
        "17 distributions x below/above/excluded boundary/non-finite responses at every row of a batch and late rows of batches of 130 and 1500 x accepted boundary values; invalid parameters set and reset at every position; invalid constructor options"
    )


def cases(tier):
    for name in SUBJECTS:
        for pos in range(4):
            yield ("data", name, pos)
    for name in SUBJECTS:
        yield ("params", name)
    for name in laws.LAWS:
        yield ("support", name, tier)
    yield ("config", 0)
    yield ("frames", 0)
    yield ("few", 0)


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def kinds(kind):
    """name -> f(X, y, w) giving the arguments of an invalid call (a batch of 3 rows, J columns)."""
    K = {}
    for bad, nm in ((np.nan, "nan"), (np.inf, "inf"), (-np.inf, "-inf")):
        for r in range(3):
            for c in range(sb.J):
                def f(X, y, w, bad=bad, r=r, c=c):
                    X = X.copy()
                    X[r, c] = bad
                    return X, y, w
                K[f"X[{r},{c}]={nm}"] = f
        if kind != "scaler":
            for r in range(3):
                def f(X, y, w, bad=bad, r=r):
                    y = y.copy()
                    y[r] = bad
                    return X, y, w
                K[f"y[{r}]={nm}"] = f
        for r in range(3):
            def f(X, y, w, bad=bad, r=r):
                w = w.copy()
                w[r] = bad
                return X, y, w
            K[f"w[{r}]={nm}"] = f
    K["fewer columns"] = lambda X, y, w: (X[:, :-1], y, w)
    K["more columns"] = lambda X, y, w: (np.hstack([X, X[:, :1]]), y, w)
    K["no columns"] = lambda X, y, w: (X[:, :0], y, w)
    K["no rows"] = lambda X, y, w: (X[:0], y[:0], w[:0])
    K["one-dimensional X"] = lambda X, y, w: (X[:, 0], y, w)
    K["three-dimensional X"] = lambda X, y, w: (X[None], y, w)
    K["short w"] = lambda X, y, w: (X, y, w[:-1])
    K["long w"] = lambda X, y, w: (X, y, np.append(w, 1.0))
    K["matrix w"] = lambda X, y, w: (X, y, np.column_stack([w, w]))
    K["text X"] = lambda X, y, w: (X.astype(object) + 0 if False else np.array([["a"] * X.shape[1]] * len(X), dtype=object), y, w)
    K["complex X"] = lambda X, y, w: (X + 1j, y, w)
    if kind != "scaler":
        K["short y"] = lambda X, y, w: (X, y[:-1], w)
        K["long y"] = lambda X, y, w: (X, np.append(y, y[0]), w)
        K["matrix y"] = lambda X, y, w: (X, np.column_stack([y, y]), w)
        K["no y"] = lambda X, y, w: (X, None, w)
        K["text y"] = lambda X, y, w: (X, np.array(["a", "b", "c"], dtype=object), w)
    return K


# a first fit may have any number of columns
FIRST_OK = {"more columns", "fewer columns"}


def rejected(ctx, tag, fn, exc=REJECT):
    try:
        with quiet():
            fn()
    except exc:
        return True
    except Exception as e:
        ctx.fail("kind", f"{tag}: raised {type(e).__name__} ({e}) instead of a ValueError/TypeError")
        return False
    ctx.fail("accepted", f"{tag}: the invalid call was accepted")
    return False


def invalid_calls(S, pos, X, y, w):
    """(tag, op, args) for the position: first call or later call, and invalid prediction input."""
    ops = ("fit", "partial_fit") if pos == 0 else ("update", "partial_fit")
    for nm, f in kinds(S.kind).items():
        if pos == 0 and nm in FIRST_OK:
            continue
        for op in ops:
            yield f"{op}: {nm}", op, f(X, y, w)


def predictors(est):
    if isinstance(est, OnlineScaler):
        return [("transform", est.transform), ("inverse_transform", est.inverse_transform)]
    if isinstance(est, ODR):
        return [("predict", est.predict), ("theta", est.predict_distribution_parameters), ("quantile", lambda X: est.predict_quantile(X, 0.3)), ("median", est.predict_median)]
    out = [("predict", est.predict), ("score", lambda X: est.score(X, np.arange(len(X)) + 0.5))]
    if hasattr(est, "coef_path_"):
        out.append(("path", est.predict_path))
    return out


def case_data(case, ctx):
    _, name, pos = case
    S = SUBJECTS[name]
    prog = program(S, 1, 3, 0.02, (2, 1))
    probe = S.data(4, 3)[0] * 0.7
    want = solo(S, prog, 0.02, probe)
    B, by = S.data(3, 4)
    by = S.data(S.n0, 1)[1][:3]
    bw = np.array([1.0, 2.0, 0.5])
    if pos == 0:  # enough rows for a first fit, one broken entry
        B, by = S.data(S.n0, 4)
        by = S.data(S.n0, 1)[1]
        bw = np.tile([1.0, 2.0, 0.5], S.n0)[: S.n0]

    def run_to(est, k):
        for i in range(k):
            op, X, y, w = prog[i]
            call(est, op, X, y, w)

    def check(est, tag, cont=True):
        if pos == 0:
            if est.is_fitted:
                ctx.fail("fitted", f"{name}: {tag}: counts as fitted after a rejected first fit")
                return False
            for pn, pf in predictors(est):
                if not rejected(ctx, f"{name}: {tag}: then {pn} of an unfitted estimator", lambda: pf(probe), NotFittedError):
                    return False
        else:
            d = diff(observe(est, probe), want[pos - 1])
            if d:
                ctx.fail("state", f"{name}: position {pos}: {tag} changed the estimator: {d}")
                return False
        for i in range(pos, 3 if cont else pos):
            op, X, y, w = prog[i]
            call(est, "partial_fit" if i == 0 else op, X, y, w)
            ctx.step()
            d = diff(observe(est, probe), want[i])
            if d:
                ctx.fail("later", f"{name}: position {pos}: after {tag} call {i} differs: {d}")
                return False
        return True

    everything = S.make(S.cfg(), 0.02)
    run_to(everything, pos)
    base = None
    for tag, op, (X, y, w) in invalid_calls(S, pos, B, by, bw):
        def bad(e):
            return lambda: (getattr(e, op)(X, sample_weight=w) if S.kind == "scaler" and op != "partial_fit" else getattr(e, op)(X, y, sample_weight=w))

        cell = "[" in tag and not tag.split(": ")[1].startswith(("X[1,1]=nan", "y[1]=nan", "w[1]=nan"))
        if cell:  # the many cells: one estimator takes all of them in a row
            if not rejected(ctx, f"{name}: position {pos}: {tag}", bad(everything)):
                return
            d = None if pos == 0 else diff(observe(everything, probe), want[pos - 1])
            if d or (pos == 0 and everything.is_fitted):
                return ctx.fail("state", f"{name}: position {pos}: {tag} changed the estimator: {d}")
            ctx.step()
        else:
            est = S.make(S.cfg(), 0.02)
            run_to(est, pos)
            if not rejected(ctx, f"{name}: position {pos}: {tag}", bad(est)):
                return
            ctx.step()
            if not check(est, tag):
                return
            if not rejected(ctx, f"{name}: position {pos}: {tag}", bad(everything)):
                return
            ctx.trace()
        ctx.state(name, pos, tag)
    if pos == 0:
        # updating something that was never fitted fails and changes nothing
        try:
            call(everything, "update", B, by, bw)
        except Exception:
            pass
        else:
            return ctx.fail("accepted", f"{name}: update of an unfitted estimator was accepted")
    else:
        for nm, f in kinds("scaler").items():
            if nm.startswith("w[") or nm.endswith(" w"):
                continue
            bx = f(B, by, bw)[0]
            for pn, pf in predictors(everything):
                if not rejected(ctx, f"{name}: position {pos}: {pn}: {nm}", lambda: pf(bx)):
                    return
                if not check(everything, f"{pn}: {nm}", cont=False):
                    return
                ctx.step()
        if S.kind == "lin":
            for nm, f in kinds("lin").items():
                if nm.startswith("w[") or nm.endswith(" w"):
                    continue
                bx, yy, _ = f(B, by, bw)
                if not rejected(ctx, f"{name}: position {pos}: score: {nm}", lambda: everything.score(bx, yy)):
                    return
                if not check(everything, f"score: {nm}", cont=False):
                    return
                ctx.step()
        if S.kind == "gam":
            if not rejected(ctx, f"{name}: what=bogus", lambda: everything.predict_distribution_parameters(probe, what="bogus")):
                return
    if not check(everything, "all rejected calls"):
        return
    ctx.trace()


BADPARAMS = {
    "scaler": [("forget", 1.0), ("forget", -0.1), ("forget", "a"), ("to_scale", "all"), ("to_scale", 3)],
    "lin": [("forget", 1.0), ("forget", -0.1), ("forget", "a"), ("fit_intercept", "yes"), ("scale_inputs", "yes"), ("regularize_intercept", 2.5), ("ic", "foo"), ("ic", 3)],
    "gam": [("forget", 1.0), ("forget", -0.1), ("fit_intercept", "yes"), ("scale_inputs", "yes"), ("regularize_intercept", 2.5), ("ic", "foo"), ("equation", "all"), ("model_selection", "foo"), ("max_it_outer", 0),
            ("max_it_inner", 0), ("max_it_outer", 2.5), ("abs_tol_outer", -1.0), ("rel_tol_inner", -1.0), ("abs_tol_inner", -1e-9), ("rel_tol_outer", -1e-9), ("prefit_initial", -1), ("prefit_update", -1), ("verbose", -1),
            ("param_order", "x"), ("distribution", "normal"), ("cautious_updates", "no"), ("debug", "no"), ("step_size", "a")],
}


def case_params(case, ctx):
    """Invalid parameters set at any position reject the next call and leave no trace once reset."""
    _, name = case
    S = SUBJECTS[name]
    prog = program(S, 1, 3, 0.02, (2, 1))
    probe = S.data(4, 3)[0] * 0.7
    want = solo(S, prog, 0.02, probe)
    for key, val in BADPARAMS[S.kind]:
        if name == "lasso_est" and key == "method":
            continue
        for pos in range(3):
            est = S.make(S.cfg(), 0.02)
            for i in range(3):
                op, X, y, w = prog[i]
                if i == pos:
                    old = est.get_params(deep=False)[key]
                    est.set_params(**{key: val})
                    for o in (op, "partial_fit"):
                        if not rejected(ctx, f"{name}: {o} with {key}={val!r} at position {pos}", lambda: call(est, o, X, y, w)):
                            return
                        ctx.step()
                    est.set_params(**{key: old})
                    if pos == 0 and est.is_fitted:
                        return ctx.fail("fitted", f"{name}: fitted after fit with {key}={val!r} was rejected")
                    if pos > 0:
                        d = diff(observe(est, probe), want[pos - 1])
                        if d:
                            return ctx.fail("state", f"{name}: rejected call with {key}={val!r} at position {pos} changed the estimator: {d}")
                call(est, "partial_fit" if i == 0 else op, X, y, w)
                d = diff(observe(est, probe), want[i])
                if d:
                    return ctx.fail("later", f"{name}: after {key}={val!r} at position {pos}, call {i}: {d}")
                ctx.step()
            ctx.state(name, key, repr(val), pos)
            ctx.trace()


EXCLUDED = {  # finite values outside the documented support
    "Normal": (), "NormalMeanVariance": (), "StudentT": (), "JSU": (), "Gumbel": (), "ReverseGumbel": (), "Logistic": (),
    "Gamma": (0.0, -1e-9, -1.0, -1e9), "InverseGamma": (0.0, -1e-9, -1.0, -1e9), "InverseGaussian": (0.0, -1e-9, -1.0, -1e9), "LogNormal": (0.0, -1e-9, -1.0, -1e9), "LogNormalMedian": (0.0, -1e-9, -1.0, -1e9),
    "Exponential": (-1e-9, -1.0, -1e9), "ZeroAdjustedGamma": (-1e-9, -1.0, -1e9), "Beta": (0.0, 1.0, -1e-9, 1 + 1e-9, -1.0, 2.0), "BetaInflated": (-1e-9, 1 + 1e-9, -1.0, 2.0, 1e9),
    "BetaInflatedZero": (-1e-9, 1 + 1e-9, 1.0, -1.0, 2.0, 1e9),
}
ACCEPT = {
    "Normal": (-50.0, 0.0, 50.0), "NormalMeanVariance": (-50.0, 0.0, 50.0), "StudentT": (-50.0, 0.0, 50.0), "JSU": (-5.0, 0.0, 5.0), "Gumbel": (-5.0, 0.0, 5.0), "ReverseGumbel": (-5.0, 0.0, 5.0), "Logistic": (-50.0, 0.0, 50.0),
    "Gamma": (1e-6, 20.0), "InverseGamma": (0.05, 20.0), "InverseGaussian": (0.05, 20.0), "LogNormal": (0.01, 20.0), "LogNormalMedian": (0.01, 20.0), "Exponential": (1e-6, 20.0), "ZeroAdjustedGamma": (0.0, 1e-6, 20.0),
    "Beta": (1e-6, 1 - 1e-6), "BetaInflated": (0.0, 1.0, 1e-6, 1 - 1e-6), "BetaInflatedZero": (0.0, 1e-6, 1 - 1e-6),
}


def case_support(case, ctx):
    _, name, tier = case
    L = laws.LAWS[name]
    P = L.n if hasattr(L, "n") else len(gamdata.BASE[name])
    n0 = 30
    X, y = make_data(name, n0 + 6, 2, 1)
    eq = {p: "all" if p == 0 else "intercept" for p in range(P)}

    def new():
        return ODR(distribution=make_dist(name), equation=dict(eq), forget=0.01, max_it_outer=4, max_it_inner=3)

    def hist(bad_pos=None, badcall=None):
        """fit 30, update 2, update 1, update 3 with an optional rejected call before position bad_pos."""
        est, obs = new(), []
        for i, s in enumerate((slice(0, 30), slice(30, 32), slice(32, 33), slice(33, 36))):
            if bad_pos == i:
                badcall(est)
            call(est, "partial_fit", X[s], y[s])
            obs.append(observe(est, X[:4] * 0.5))
        return obs

    want = hist()
    for bad in EXCLUDED[name] + (np.nan, np.inf, -np.inf):
        for pos in range(4):
            rows = (0, 17, 29) if pos == 0 else (0, 1, 2)
            m = 30 if pos == 0 else 3
            for r in rows:
                ok = []

                def badcall(est):
                    yy = y[:m].copy()
                    yy[r] = bad
                    exc = OutOfSupportError if np.isfinite(bad) else ValueError
                    ok.append(rejected(ctx, f"{name}: y={bad!r} in row {r} of {m} at position {pos}", lambda: est.partial_fit(X[:m], yy), exc))
                    if pos == 0 and est.is_fitted:
                        ctx.fail("fitted", f"{name}: fitted after y={bad!r} was rejected")

                got = hist(pos, badcall)
                ctx.step(5)
                if not ok[0]:
                    return
                for i in range(4):
                    d = diff(got[i], want[i])
                    if d:
                        return ctx.fail("later", f"{name}: y={bad!r} in row {r} rejected at position {pos}; call {i} differs: {d}")
                ctx.trace()
                ctx.state(name, bad, pos, r)
        for w0 in (0.0, 1.0):  # also with weight zero the value is invalid
            est = new()
            call(est, "fit", X[:30], y[:30])
            yy = y[30:33].copy()
            yy[1] = bad
            if not rejected(ctx, f"{name}: y={bad!r} with weight {w0}", lambda: est.update(X[30:33], yy, sample_weight=np.array([1.0, w0, 1.0]))):
                return
    big = [np.tile(a, (50,) + (1,) * (a.ndim - 1)) for a in (X[:30], y[:30])]
    for bad in EXCLUDED[name] + (np.nan, np.inf, -np.inf):
        for n, r in ((130, 129), (1500, 1100), (1500, 1499)):
            for op in ("fit", "update"):
                est = new()
                if op == "update":
                    call(est, "fit", X[:30], y[:30])
                    before = observe(est, X[:4] * 0.5)
                yy = big[1][:n].copy()
                yy[r] = bad
                if not rejected(ctx, f"{name}: y={bad!r} in row {r} of {n} in {op}", lambda: getattr(est, op)(big[0][:n], yy), OutOfSupportError if np.isfinite(bad) else ValueError):
                    return
                ctx.step()
                if op == "fit" and est.is_fitted:
                    return ctx.fail("fitted", f"{name}: fitted after y={bad!r} in row {r} of {n} was rejected")
                if op == "update":
                    d = diff(observe(est, X[:4] * 0.5), before)
                    if d:
                        return ctx.fail("later", f"{name}: rejected y={bad!r} in row {r} of {n} changed the model: {d}")
        ctx.trace()
    for good in ACCEPT[name]:
        for r in range(3):
            est = new()
            call(est, "fit", X[:30], y[:30])
            yy = y[30:33].copy()
            yy[r] = good
            call(est, "update", X[30:33], yy)
            if float(est.n_observations_) != 33.0:
                return ctx.fail("count", f"{name}: accepted y={good} but n_observations_={est.n_observations_}")
            ctx.step(2)
            if good in L.atoms:
                yy = y[:30].copy()
                yy[r] = good
                call(new(), "fit", X[:30], yy)
                ctx.step()
        ctx.trace()


def case_config(case, ctx):
    """Invalid constructor options are rejected by fit and the estimator stays unfitted; correcting them makes fit work."""
    X, y = SUBJECTS["gam_default"].data(26, 1)
    gam = [
        dict(method="foo"), dict(method={0: "foo", 1: "ols"}), dict(method=3), dict(equation={0: "foo"}), dict(equation={0: 3}), dict(equation={0: np.array([0, 3])}), dict(equation={0: np.array([True, False])}),
        dict(equation={0: np.array([0.5, 1.5])}), dict(equation={0: ["a", "b"]}), dict(param_order=np.array([0])), dict(param_order=np.array([1, 2])), dict(equation={0: "intercept"}, fit_intercept=False), dict(ic="aicx"),
        dict(forget=1.5), dict(forget=-1e-3), dict(model_selection="x"), dict(max_it_outer=0), dict(max_it_inner=-1),
    ]
    lin = [dict(method="foo"), dict(method=3), dict(regularize_intercept=True, fit_intercept=False), dict(forget=1.0), dict(forget=-0.5), dict(ic="aicx"), dict(scale_inputs="x"), dict(fit_intercept=1.5)]
    ols = [dict(beta_lower_bound=np.zeros(2)), dict(beta_upper_bound=np.zeros(7))]
    for cls, opts in ((ODR, gam), (OnlineLinearModel, lin), (OnlineLasso, ols)):
        for o in opts:
            est = cls(**o)
            for op in ("fit", "partial_fit"):
                if not rejected(ctx, f"{cls.__name__}({o}).{op}", lambda: call(est, op, X, y)):
                    return
                if est.is_fitted:
                    return ctx.fail("fitted", f"{cls.__name__}({o}) counts as fitted after the rejected {op}")
                ctx.step()
            est.set_params(**{k: v for k, v in cls().get_params(deep=False).items() if k in o})
            call(est, "partial_fit", X, y)
            fresh = cls()
            call(fresh, "fit", X, y)
            d = diff(observe(est, X[:3]), observe(fresh, X[:3]))
            if d:
                return ctx.fail("later", f"{cls.__name__}({o}) corrected: {d}")
            ctx.trace()
            ctx.state(cls.__name__, repr(o))


def case_frames(case, ctx):
    """Frames whose columns do not match the ones seen in fit are rejected and leave no trace."""
    for name in SUBJECTS:
        S = SUBJECTS[name]
        X, y = S.data(S.n0 + 3, 1)
        cols = ["a", "b", "c"]
        F = pd.DataFrame(X, columns=cols)
        probe = F.iloc[:3] * 0.5

        def new():
            e = S.make(S.cfg(), 0.02)
            call(e, "fit", F.iloc[: S.n0], y[: S.n0])
            return e

        ref = new()
        base = observe(ref, probe)
        call(ref, "update", F.iloc[S.n0 :], y[S.n0 :])
        want = observe(ref, probe)
        for bad in (["a", "c", "b"], ["a", "b", "d"], ["x", "y", "z"]):
            G = pd.DataFrame(X[S.n0 :], columns=bad)
            est = new()
            for op in ("update", "partial_fit"):
                if not rejected(ctx, f"{name}: {op} with columns {bad}", lambda: call(est, op, G, y[S.n0 :])):
                    return
                ctx.step()
            for pn, pf in predictors(est):
                if not rejected(ctx, f"{name}: {pn} with columns {bad}", lambda: pf(G)):
                    return
                ctx.step()
            d = diff(observe(est, probe), base)
            call(est, "update", F.iloc[S.n0 :], y[S.n0 :])
            d = d or diff(observe(est, probe), want)
            if d:
                return ctx.fail("state", f"{name}: rejected columns {bad}: {d}")
            ctx.trace()
            ctx.state(name, tuple(bad))


def case_few(case, ctx):
    """First fits with too few rows are rejected; a later valid partial fit starts from scratch."""
    X, y = SUBJECTS["lin_ols"].data(12, 1)
    for mk, bad in (
        (lambda: OnlineLinearModel(method="ols"), (1, 2, 3, 4)),
        (lambda: OnlineLinearModel(method="lasso"), (1,)),
        (lambda: OnlineLasso(lambda_n=5), (1,)),
        (lambda: OnlineScaler(), (1,)),
    ):
        fresh = mk()
        call(fresh, "fit", X, y)
        for n in bad:
            for op in ("fit", "partial_fit"):
                est = mk()
                if not rejected(ctx, f"{type(est).__name__}: first {op} with {n} rows", lambda: call(est, op, X[:n], y[:n])):
                    return
                if est.is_fitted:
                    return ctx.fail("fitted", f"{type(est).__name__}: fitted after {n} rows were rejected")
                call(est, "partial_fit", X, y)
                d = diff(observe(est, X[:3]), observe(fresh, X[:3]))
                if d:
                    return ctx.fail("later", f"{type(est).__name__}: after a rejected fit with {n} rows: {d}")
                ctx.step(2)
                ctx.trace()
                ctx.state(type(est).__name__, n, op)
