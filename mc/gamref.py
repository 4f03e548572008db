"""Reference for the distributional regression: K plain iterations of (penalised) reweighted least squares.

Keeps the definition only: discounted weighted Gram sums, running scaler moments recomputed from the full
history, selection by the discounted residual sum of squares or log-likelihood. The distribution's derivatives
and start values are taken from the implementation (C08-C10 decide those); densities come from laws.py."""
import numpy as np

from . import laws
from .ref import MethodSpec, RefRegression, RefScaler, discount, effective_n, ic_value, ll_from_rss, nonzero


class Undecided(Exception):
    """A branch of the algorithm sits within rounding of its switch point; the trace is not judged."""


class GamRef:
    def __init__(self, dist, n_cols, *, law=None, eq, forget=0.0, fit_intercept=True, scale=True, method=None, ic="aic", selection="local_rss",
                 regularize_intercept=False, K=1, order=None):
        P = dist.n_params
        self.d, self.P, self.K = dist, P, K
        self.L = laws.LAWS[law or type(dist).__name__]

        def per(v, default=None):
            return {p: (v.get(p, default) if isinstance(v, dict) else v) for p in range(P)}

        self.eq = {p: eq.get(p, "intercept") for p in range(P)}
        self.forget, self.fi, self.ri = per(forget, 0.0), per(fit_intercept, True), per(regularize_intercept, False)
        self.method = per(method or MethodSpec("ols"), MethodSpec("ols"))
        self.ic = per(ic, "aic")
        self.selection = selection
        self.order = list(range(P)) if order is None else list(order)
        self.scaler = RefScaler(self.forget[0], scale, n_cols)
        self.n = 0.0
        self.r = {}
        self.coef = {p: None for p in range(P)}
        self.path = {p: None for p in range(P)}
        self.sel = {p: None for p in range(P)}
        self.n_cols = n_cols

    # ---- pieces -------------------------------------------------------------------------------------
    def cols(self, p):
        e = self.eq[p]
        if isinstance(e, str):
            return None if e == "intercept" else np.arange(self.n_cols)
        e = np.asarray(e)
        return np.flatnonzero(e) if e.dtype == bool else e

    def design(self, Xs, p):
        c = self.cols(p)
        one = np.ones((len(Xs), 1))
        if c is None:
            return one
        return np.hstack([one, Xs[:, c]]) if self.fi[p] else Xs[:, c]

    def reg(self, p, J):
        r = np.ones(J, dtype=bool)
        if self.cols(p) is not None and self.fi[p] and not self.ri[p]:
            r[0] = False
        return r

    def link(self, Xs):
        return np.column_stack([self.design(Xs, p) @ self.coef[p] for p in range(self.P)])

    def predict(self, X):
        e = self.link(self.scaler.transform(np.asarray(X, dtype=float)))
        return np.column_stack([self.d.link_inverse(e[:, p], param=p) for p in range(self.P)])

    def working(self, y, fv, p):
        d = self.d
        eta = np.asarray(d.link_function(fv[:, p], param=p), dtype=float)
        if type(d.links[p]).__name__ != "Identity" and np.any(np.abs(eta) > 12):
            raise Undecided("predictor outside the working range")
        slope = np.asarray(d.link_inverse_derivative(eta, param=p), dtype=float)  # dtheta / deta
        wt = np.clip(-np.asarray(d.dl2_dp2(y, fv, param=p)) * slope**2, 1e-10, 1e10)
        z = eta + np.asarray(d.dl1_dp1(y, fv, param=p)) * slope / wt
        return z, wt

    def logpdf(self, y, fv):
        return self.L.logpdf(y, *[fv[:, k] for k in range(self.P)])

    def n_eff(self, p):
        return effective_n(self.forget[p], self.n)

    def others(self, p):
        return sum(np.count_nonzero(self.coef[q]) for q in range(self.P) if q != p and self.coef[q] is not None)

    def select(self, p, D, y, w, z, wt, path, fv, old, gamma):
        f = discount(len(y), self.forget[p])
        pred = D @ path.T
        n = self.n_eff(p)
        if self.selection == "local_rss":
            val = (f[:, None] * w[:, None] * wt[:, None] * (z[:, None] - pred) ** 2).sum(0)
        else:
            val = np.zeros(len(path))
            for i in range(len(path)):
                t = fv.copy()
                t[:, p] = self.d.link_inverse(np.ascontiguousarray(pred[:, i]), param=p)
                val[i] = np.sum(f * w * self.logpdf(y, t))
        if old is not None:
            val = val + gamma * old
        k = nonzero(path)
        if np.any(np.sum(np.abs(path) > 1e-6 * np.max(np.abs(path), axis=0), axis=1) != k):
            raise Undecided("a coefficient within rounding of zero")
        ll = ll_from_rss(val, n) if self.selection == "local_rss" else val
        ics = ic_value(self.ic[p], ll, k, n)
        if not np.all(np.isfinite(ics)):
            raise Undecided("non-finite criterion")
        best = int(np.argmin(ics))
        near = np.flatnonzero(ics <= ics[best] + 1e-6 * (1 + abs(ics[best])))
        for i in near:
            if not np.allclose(path[i], path[best], rtol=1e-9, atol=1e-12):
                raise Undecided("tie in the selection")
        self.ics = ics
        return path[best].copy(), val, best

    def _solve(self, p, G, H, J, prev_path, prev_beta, initial, path_initial):
        spec = self.method[p]
        r = RefRegression(spec, self.reg(p, J), self.forget[p])
        r.G, r.H = G, H
        if spec.path:
            r.path = None if path_initial else prev_path
            r._solve(path_initial)
        elif spec.kind == "ridge":
            r.lam = spec.kw["lambda_reg"]
            r.beta = prev_beta
            r._solve(initial)
        else:
            r._solve(True)
        return r

    min_it = 1
    M = 1  # inner iterations; with more than one, runs in which the deviance rises (step halving) are not judged

    # ---- calls --------------------------------------------------------------------------------------
    def fit(self, X, y, w):
        X = np.asarray(X, dtype=float)
        self.scaler.add(X, w)
        Xs = self.scaler.transform(X)
        self.n = w.sum()
        D = {p: self.design(Xs, p) for p in range(self.P)}
        for p in range(self.P):
            self.coef[p] = np.zeros(D[p].shape[1])
        fv = np.array(self.d.initial_values(y), dtype=float)
        last = self.order[-1]
        dev = -2 * np.sum(w * discount(len(y), self.forget[last]) * self.logpdf(y, fv))
        it = 0
        while it < self.K:
            old = dev
            it += 1
            for p in self.order:
                f = discount(len(y), self.forget[p])
                start = previous = -2 * np.sum(f * w * self.logpdf(y, fv))
                cur, path = fv, self.path[p]
                for inner in range(self.M):
                    z, wt = self.working(y, cur, p)
                    fw = f * w * wt
                    G, H = D[p].T @ (fw[:, None] * D[p]), D[p].T @ (fw * z)
                    r = self._solve(p, G, H, D[p].shape[1], path, None, True, it == 1 and inner == 0)
                    if self.method[p].path:
                        beta, val, _ = self.select(p, D[p], y, w, z, wt, r.path, cur, None, 0.0)
                    else:
                        beta, val = r.beta, None
                    new = fv.copy()
                    new[:, p] = self.d.link_inverse(D[p] @ beta, param=p)
                    dev = -2 * np.sum(f * w * self.logpdf(y, new))
                    if not np.isfinite(dev) or not np.isfinite(start):
                        raise Undecided("non-finite deviance")
                    if inner and np.max(np.abs(beta - last_beta)) <= 1e-12 * np.max(np.abs(beta)):
                        break  # a fixed point
                    if self.M > 1 and dev > previous - 1e-9 * (1 + abs(previous)):
                        raise Undecided("deviance rises or stands still")
                    cur, path, previous, last_beta = new, r.path, dev, beta
                if it > 1 and abs(dev - start) <= 1e-9 * (1 + abs(start)):
                    raise Undecided("deviance within rounding")
                if dev <= start or it == 1:
                    self.r[p] = (G, H)
                    self.coef[p], self.path[p], self.sel[p] = beta, r.path, val
                    fv = new
            if it < self.K and abs(dev - old) <= 1e-9 * (1 + abs(old)):
                raise Undecided("deviance within rounding")
            if dev > old and it >= self.min_it:  # the stopping rules apply after the minimum number of iterations
                break
        self.fv = fv
        return self

    def update(self, X, y, w):
        X = np.asarray(X, dtype=float)
        fv = self.predict(X)
        self.n += w.sum()
        self.scaler.add(X, w)
        Xs = self.scaler.transform(X)
        m = len(y)
        new_state = {}
        sel = {}
        for _ in range(self.K):
            for p in self.order:
                D = self.design(Xs, p)
                g = (1 - self.forget[p]) ** m
                previous = -2 * np.sum(w * self.logpdf(y, fv)) if self.M > 1 else None
                cur = fv
                for inner in range(self.M):
                    z, wt = self.working(y, cur, p)
                    fw = discount(m, self.forget[p]) * w * wt
                    G = g * self.r[p][0] + D.T @ (fw[:, None] * D)
                    H = g * self.r[p][1] + D.T @ (fw * z)
                    r = self._solve(p, G, H, D.shape[1], self.path[p], self.coef[p], False, False)
                    if self.method[p].path:
                        beta, val, _ = self.select(p, D, y, w, z, wt, r.path, cur, self.sel[p], g)
                        sel[p] = val
                    else:
                        beta = r.beta
                    cur = fv.copy()
                    cur[:, p] = self.d.link_inverse(D @ beta, param=p)
                    if not np.all(np.isfinite(beta)) or not np.all(np.isfinite(cur)):
                        raise Undecided("non-finite iterate")
                    if inner and np.max(np.abs(beta - last_beta)) <= 1e-12 * np.max(np.abs(beta)):
                        break
                    last_beta = beta
                    if self.M > 1:
                        dev = -2 * np.sum(w * self.logpdf(y, cur))
                        if not dev < previous - 1e-7 * (1 + abs(previous)):
                            raise Undecided("deviance rises or stands still")
                        previous = dev
                self.coef[p], self.path[p] = beta, r.path
                new_state[p] = (G, H)
                fv = cur
        self.r.update(new_state)
        self.sel.update(sel)
        self.fv = fv
        return self
