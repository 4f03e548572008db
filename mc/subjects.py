"""Estimators under test for the history properties (C11-C13): factories, data and observations."""
import copy

import numpy as np

import ondil.distributions as D
from ondil import OnlineScaler
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

from . import gamdata
from .gamdata import BASE, make_data, quiet
from .util import data_matrix

J = 3


def lin_data(n, seed=0):
    X = data_matrix(n, J, 3 * seed)
    y = 0.5 + X @ np.array([0.8, -0.4, 0.05]) + 0.3 * np.sin(7.0 * np.arange(n) + seed)
    return X, y


class Subject:
    """One estimator configuration. cfg() creates the user's objects (to be shared or not), make(cfg) an estimator."""

    def __init__(self, name, kind, cfg, make, n0=9, dist=None, ODRkw=None):
        self.name, self.kind, self.cfg, self.make, self.n0, self.dist = name, kind, cfg, make, n0, dist

    def data(self, n, seed=0):
        if self.kind == "gam":
            return make_data(self.dist, n, J, seed)
        return lin_data(n, seed)


def _lin(name, cfg, make):
    return Subject(name, "lin", cfg, make)


def _gam(name, dist, cfg, make, n0=26):
    return Subject(name, "gam", cfg, make, n0=n0, dist=dist)


FAST = dict(max_it_outer=4, max_it_inner=3)


def build():
    S = []
    S.append(Subject("scaler", "scaler", lambda: {"sel": np.array([True, False, True])}, lambda c, f=0.0: OnlineScaler(forget=f, to_scale=c["sel"])))
    S.append(Subject("scaler_idx", "scaler", lambda: {"sel": np.array([2, 0])}, lambda c, f=0.0: OnlineScaler(forget=f, to_scale=c["sel"])))
    S.append(Subject("scaler_all", "scaler", lambda: {}, lambda c, f=0.0: OnlineScaler(forget=f)))
    S.append(_lin("lin_ols", lambda: {"m": OrdinaryLeastSquares(), "sel": np.array([True, True, False])},
                  lambda c, f=0.0: OnlineLinearModel(method=c["m"], forget=f, scale_inputs=c["sel"])))
    S.append(_lin("lin_str", lambda: {}, lambda c, f=0.0: OnlineLinearModel(method="ols", forget=f, fit_intercept=False)))
    S.append(_lin("lin_lasso", lambda: {"m": LassoPath(lambda_n=8)}, lambda c, f=0.0: OnlineLinearModel(method=c["m"], forget=f)))
    S.append(_lin("lin_lasso_str", lambda: {}, lambda c, f=0.0: OnlineLinearModel(method="lasso", forget=f, ic="aic")))
    S.append(_lin("lin_enet", lambda: {"m": ElasticNetPath(alpha=0.5, lambda_n=8, beta_lower_bound=np.array([-9.0, 0.0, -9.0, -9.0]), beta_upper_bound=np.array([9.0, 0.6, 9.0, 9.0]))},
                  lambda c, f=0.0: OnlineLinearModel(method=c["m"], forget=f)))
    S.append(_lin("lin_ridge", lambda: {"m": Ridge()}, lambda c, f=0.0: OnlineLinearModel(method=c["m"], forget=f)))
    S.append(_lin("lin_ridge_start", lambda: {"m": Ridge(lambda_reg=0.7, start_beta=np.array([0.1, 0.2, 0.3, 0.4]))}, lambda c, f=0.0: OnlineLinearModel(method=c["m"], forget=f)))
    S.append(_lin("lasso_est", lambda: {"lo": np.array([-9.0, 0.0, -9.0, -9.0]), "hi": np.array([9.0, 0.6, 9.0, 9.0])},
                  lambda c, f=0.0: OnlineLasso(forget=f, beta_lower_bound=c["lo"], beta_upper_bound=c["hi"], lambda_n=8, lambda_eps=1e-3, ic="aic")))

    def gam(name, dist, cfg, n0=26, **kw):
        def make(c, f=0.0):
            k = dict(FAST)
            k.update(kw)
            if "eq" in c:
                k["equation"] = c["eq"]
            if "m" in c:
                k["method"] = c["m"]
            if "sel" in c:
                k["scale_inputs"] = c["sel"]
            if "order" in c:
                k["param_order"] = c["order"]
            if "ic" in c:
                k["ic"] = c["ic"]
            if "fi" in c:
                k["fit_intercept"] = c["fi"]
            if "f" in c:
                k["forget"] = {p: min(0.9, v + f) for p, v in c["f"].items()} if f else c["f"]
            else:
                k["forget"] = f
            if "d" in c:
                k["distribution"] = c["d"]
            return ODR(**k)

        S.append(_gam(name, dist, cfg, make, n0))

    gam("gam_default", "Normal", lambda: {"eq": {0: "all", 1: "all"}})
    gam("gam_cfg", "Normal", lambda: {"d": D.Normal(), "eq": {0: np.array([0, 2])}, "m": OrdinaryLeastSquares(), "f": {0: 0.02}, "sel": np.array([True, False, True]), "order": np.array([1, 0]), "ic": {0: "bic"},
                                       "fi": {0: True}})
    gam("gam_lasso", "Normal", lambda: {"d": D.Normal(), "eq": {0: "all", 1: np.array([0, 1])}, "m": LassoPath(lambda_n=6)})
    gam("gam_mixed", "Gamma", lambda: {"d": D.Gamma(), "eq": {0: "all", 1: np.array([False, True, True])}, "m": {0: ElasticNetPath(alpha=0.5, lambda_n=6), 1: "ols"}})
    gam("gam_ridge", "Logistic", lambda: {"d": D.Logistic(), "eq": {0: "all", 1: "all"}, "m": Ridge()})
    gam("gam_ll", "Normal", lambda: {"d": D.Normal(), "eq": {0: "all", 1: "all"}, "m": LassoPath(lambda_n=6)}, model_selection="global_ll")
    gam("gam_bez", "BetaInflatedZero", lambda: {"d": D.BetaInflatedZero(), "eq": {0: "all"}})
    gam("gam_zag", "ZeroAdjustedGamma", lambda: {"d": D.ZeroAdjustedGamma(), "eq": {0: "all"}})
    gam("gam_debug", "Normal", lambda: {"d": D.Normal(), "eq": {0: "all", 1: "all"}}, debug=True, verbose=2)
    return {s.name: s for s in S}


SUBJECTS = build()


def snapshot(o):
    """Deep value copy of the user's plain objects (arrays, dicts, lists) for a later comparison."""
    if isinstance(o, np.ndarray):
        return ("a", o.copy(), o.flags.writeable)
    if isinstance(o, dict):
        return ("d", {k: snapshot(v) for k, v in o.items()}, list(o.keys()))
    if isinstance(o, (list, tuple)):
        return ("l", [snapshot(v) for v in o])
    if hasattr(o, "__dict__") and type(o).__module__.startswith("ondil.methods"):
        return ("m", {k: snapshot(v) for k, v in vars(o).items() if not k.startswith("_")})
    return ("x", o)


def same_snapshot(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "a":
        return a[1].dtype == b[1].dtype and a[1].shape == b[1].shape and bool(np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f"))
    if a[0] in "dm":
        return set(a[1]) == set(b[1]) and all(same_snapshot(a[1][k], b[1][k]) for k in a[1])
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(same_snapshot(x, y) for x, y in zip(a[1], b[1]))
    if isinstance(a[1], (str, int, float, bool, type(None))):
        return a[1] == b[1]
    return a[1] is b[1]


def call(est, op, X, y, w=None):
    with quiet():
        if isinstance(est, OnlineScaler):
            return getattr(est, op)(X, sample_weight=w) if op != "partial_fit" else est.partial_fit(X, y, sample_weight=w)
        return getattr(est, op)(X, y, sample_weight=w)


def observe(est, probe):
    """Everything a user can see of the model: coefficients, counts and predictions."""
    out = {}
    with quiet():
        if isinstance(est, OnlineScaler):
            out["n"] = float(est.n_observations_)
            out["t"] = est.transform(probe)
            out["i"] = est.inverse_transform(probe)
        elif isinstance(est, ODR):
            out["n"] = float(est.n_observations_)
            for p in range(est.distribution.n_params):
                out[f"c{p}"] = np.array(est.coef_[p])
                out[f"nt{p}"] = float(est.n_training_[p])
                if est.coef_path_[p] is not None:
                    out[f"p{p}"] = np.array(est.coef_path_[p])
            out["t"] = est.predict_distribution_parameters(probe)
            out["q"] = est.predict_quantile(probe, 0.3)
            out["m"] = np.asarray(est.predict(probe))
        else:
            out["n"], out["nt"] = float(est.n_observations_), float(est.n_training_)
            out["c"] = np.array(est.coef_)
            out["t"] = est.predict(probe)
            if hasattr(est, "coef_path_"):
                out["p"] = np.array(est.coef_path_)
                out["pp"] = est.predict_path(probe)
    return out


def diff(a, b, tol=1e-9):
    """Name of the first observation that differs, or None."""
    if set(a) != set(b):
        return f"observables {sorted(set(a) ^ set(b))}"
    for k in a:
        x, y = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
        if x.shape != y.shape:
            return f"{k}: shape {x.shape} vs {y.shape}"
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        if not np.all(ok):
            s = max(1.0, np.nanmax(np.abs(y))) if y.size else 1.0
            if not np.all(ok | (np.abs(x - y) <= tol * s)):
                return f"{k}: {x.ravel()[:6]} vs {y.ravel()[:6]}"
    return None


READS = {
    "scaler": ["transform", "inverse", "std", "params", "repr", "tags"],
    "lin": ["predict", "score", "path", "params", "repr", "beta", "clone", "deepcopy", "pickle", "tags"],
    "gam": ["predict", "median", "theta", "link", "contrib", "quantile", "quantiles", "score", "params", "repr", "beta", "clone", "deepcopy", "pickle", "dist", "design", "tags"],
}


def read(est, what, X, y, scribble=False):
    """One read-only operation; the returned arrays may be overwritten by the user."""
    import pickle

    from sklearn.base import clone

    def ret():
        if what == "transform":
            return np.array(est.transform(X)) if not scribble else est.transform(X.copy())
        if what == "inverse":
            return np.array(est.inverse_transform(X)) if not scribble else est.inverse_transform(X.copy())
        if what == "std":
            return np.array(est.std_)
        if what == "params":
            p = est.get_params(deep=True)
            return sorted(p)
        if what == "repr":
            return repr(est)
        if what == "tags":
            return bool(est.is_fitted), float(est.n_samples_)
        if what == "predict":
            return est.predict(X)
        if what == "score":
            return est.score(X, y)
        if what == "path":
            return est.predict_path(X) if hasattr(est, "coef_path_") else None
        if what == "beta":
            return copy.deepcopy((est.beta, est.beta_path if hasattr(est, "coef_path_") else None))
        if what == "clone":
            clone(est)
            return None
        if what == "deepcopy":
            copy.deepcopy(est)
            return None
        if what == "pickle":
            return len(pickle.dumps(est)) > 0
        if what == "median":
            return est.predict_median(X)
        if what == "theta":
            return est.predict_distribution_parameters(X)
        if what == "link":
            return est.predict_distribution_parameters(X, what="link")
        if what == "contrib":
            return est.predict_distribution_parameters(X, return_contributions=True)
        if what == "quantile":
            return est.predict_quantile(X, 0.25)
        if what == "quantiles":
            return est.predict_quantile(X, np.array([0.1, 0.5, 0.9]))
        if what == "dist":
            th = est.predict_distribution_parameters(X)
            d = est.distribution
            np.random.seed(3)
            d.rvs(2, th)
            d.initial_values(y)
            return [d.cdf(y, th), d.logpdf(y, th), d.dl1_dp1(y, th, param=0), d.dl2_dp2(y, th, param=0), d.ppf(0.4, th)]
        if what == "design":
            return [np.array(est.make_model_array(X, p)) for p in range(est.distribution.n_params)]
        raise KeyError(what)

    with quiet():
        out = ret()
    if scribble:
        _scribble(out)
    return out


def _scribble(o):
    if isinstance(o, np.ndarray) and o.ndim and o.flags.writeable and o.dtype.kind == "f":
        o[...] = -7.5
    elif isinstance(o, (list, tuple)):
        for v in o:
            _scribble(v)


def warm():
    gamdata.warm()
