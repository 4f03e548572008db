"""Deterministic data for the distributional regression and a builder for estimator + reference pairs."""
import contextlib
import io

import numpy as np

from . import laws
from .gamref import GamRef
from .ref import MethodSpec
from .util import data_matrix

import ondil.distributions as D
from ondil.estimators import OnlineDistributionalRegression as ODR

BASE = {
    "Normal": (0.3, 1.2), "NormalMeanVariance": (0.3, 1.2), "Gumbel": (0.3, 1.2), "ReverseGumbel": (0.3, 1.2), "Logistic": (0.3, 1.2), "Gamma": (1.5, 0.6),
    "Beta": (0.4, 0.3), "InverseGamma": (1.5, 0.4), "InverseGaussian": (1.5, 0.6), "LogNormal": (0.2, 0.5), "LogNormalMedian": (1.2, 0.5),
    "StudentT": (0.2, 1.1, 4.0), "JSU": (0.1, 1.2, 0.3, 1.6), "Exponential": (1.4,), "BetaInflated": (0.4, 0.3, 0.2, 0.3), "BetaInflatedZero": (0.4, 0.3, 0.2),
    "ZeroAdjustedGamma": (1.5, 0.6, 0.25),
}


def uniforms(n, seed=0):
    """Low-discrepancy probabilities in (0.02, 0.98)."""
    g = 0.6180339887498949
    return 0.02 + 0.96 * np.mod(0.37 + 0.11 * seed + g * np.arange(1, n + 1), 1.0)


def make_dist(name, links=None):
    import inspect

    cls = getattr(D, name)
    if not links:
        return cls()
    import ondil.links as LK

    names = [n for n in inspect.signature(cls.__init__).parameters if n.endswith("_link")]
    return cls(**{names[p]: getattr(LK, k)() for p, k in links.items()})


def make_data(name, n, j, seed=0, scale_effect=0.15):
    L = laws.LAWS[name]
    th = BASE[name]
    d = getattr(D, name)()
    X = data_matrix(n, j, 3 * seed)
    e = float(np.asarray(d.link_function(np.array([th[0]]), param=0))[0])
    eff = np.array([0.25, -0.2, 0.0, 0.1, 0.0, -0.05, 0.0, 0.0] + [0.0] * max(0, j - 8))[:j]
    T = [np.asarray(d.link_inverse(e + X @ eff, param=0), dtype=float)]
    for p in range(1, len(th)):
        ep = float(np.asarray(d.link_function(np.array([th[p]]), param=p))[0])
        eta = ep + (scale_effect * X[:, 0] if p == 1 else 0.0)
        T.append(np.asarray(d.link_inverse(np.full(n, ep) + 0 * X[:, 0] + (eta - ep), param=p), dtype=float))
    u = uniforms(n, seed)
    if name in ("StudentT", "JSU"):  # heavy tails present, so that the tail parameters have finite optima
        u = 0.5 + (u - 0.5) * (0.4999 / 0.48)
    y = np.array([float(L.ppf(u[i], *[t[i] for t in T])) for i in range(n)])
    return X, y


NOTOL = dict(abs_tol_inner=0.0, abs_tol_outer=0.0, rel_tol_inner=0.0, rel_tol_outer=0.0)
# a step that changes the deviance by rounding only counts as converged, not as a deterioration
ROUNDTOL = dict(abs_tol_inner=1e-9, abs_tol_outer=0.0, rel_tol_inner=1e-9, rel_tol_outer=0.0)


def build(name, j, *, links=None, eq=None, forget=0.0, fit_intercept=True, scale=True, method=None, ic="aic", selection="local_rss", regularize_intercept=False, K=1,
          M=1, order=None, **extra):
    """(implementation, reference) with the same configuration, exactly K iterations."""
    d = make_dist(name, links)
    P = d.n_params
    eq = {0: "all"} if eq is None else eq
    eq = {p: eq.get(p, "intercept") for p in range(P)}
    if method is None or isinstance(method, MethodSpec):
        m_impl = (method or MethodSpec("ols")).build()
    else:
        m_impl = {p: s.build() for p, s in method.items()}
    kw = dict(NOTOL)
    kw.update(extra)
    est = ODR(
        distribution=d, equation={p: (np.array(v) if not isinstance(v, str) else v) for p, v in eq.items()}, forget=forget, method=m_impl, scale_inputs=scale,
        fit_intercept=fit_intercept, regularize_intercept=regularize_intercept, ic=ic, model_selection=selection, max_it_outer=K, max_it_inner=M,
        param_order=None if order is None else np.array(order), **kw,
    )
    ref = GamRef(make_dist(name, links), j, law=name, eq=eq, forget=forget, fit_intercept=fit_intercept, scale=scale, method=method, ic=ic, selection=selection,
                 regularize_intercept=regularize_intercept, K=K, order=order)
    ref.M = M
    ref.min_it = int(extra.get("prefit_initial") or extra.get("min_it_outer", 1))
    return est, ref


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


WPATS = {"none": None, "mixed": (1.0, 2.0, 0.5, 3.0), "zeros": (1.0, 0.0, 2.0, 1.0, 1.0), "const": (2.0,)}


def weights(wp, n):
    pat = WPATS[wp]
    return np.ones(n) if pat is None else np.array([pat[i % len(pat)] for i in range(n)])


def warm():
    X, y = make_data("Normal", 12, 2)
    for m in ("ols", "lasso", "elasticnet", MethodSpec("ridge", lambda_reg=1.0).build()):
        with quiet():
            e = ODR(method=m, equation={0: "all", 1: "all"}, max_it_outer=2).fit(X, y)
            e.update(X[:1], y[:1])
            e.update(X[:2], y[:2])
