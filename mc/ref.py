"""Reference models: small, direct transcriptions of the documented definitions.
They share no code with ondil and keep the complete history instead of recursions where possible."""
import numpy as np


def discount(n, forget):
    return (1.0 - forget) ** np.arange(n - 1, -1, -1, dtype=float)


def moments(X, w, forget):
    f = discount(X.shape[0], forget) * w
    tot = f.sum()
    mean = (f[:, None] * X).sum(0) / tot
    var = (f[:, None] * (X - mean) ** 2).sum(0) / tot
    return mean, var


class RefScaler:
    """Keeps all rows; moments are recomputed from scratch."""

    def __init__(self, forget, sel, j):
        self.forget = forget
        if isinstance(sel, bool):
            self.idx = np.arange(j) if sel else np.arange(0)
        else:
            sel = np.asarray(sel)
            self.idx = np.flatnonzero(sel) if sel.dtype == bool else sel
        self.X = np.zeros((0, j))
        self.w = np.zeros(0)

    def add(self, X, w):
        self.X = np.vstack([self.X, X])
        self.w = np.concatenate([self.w, w])
        if self.idx.size:
            self.mean, self.var = moments(self.X[:, self.idx], self.w, self.forget)

    def transform(self, X):
        out = np.array(X, dtype=float, copy=True)
        if self.idx.size:
            out[:, self.idx] = (out[:, self.idx] - self.mean) / np.sqrt(self.var)
        return out


def soft(x, t):
    return np.sign(x) * max(abs(x) - t, 0.0)


def coordinate_descent(G, h, beta, lam, reg, alpha, lo, hi, tol, max_it, orders=None):
    """Documented algorithm: first sweep over all coordinates, later sweeps over non-zero ones."""
    b = np.array(beta, dtype=float)
    J = len(b)
    it = 0
    while True:
        it += 1
        prev = b.copy()
        order = range(J) if (orders is None or it < 2) else orders(it)
        for j in order:
            if it < 2 or b[j] != 0:
                u = h[j] - G[j] @ b + G[j, j] * b[j]
                if reg[j]:
                    v = soft(u, alpha * lam) / (G[j, j] + lam * (1 - alpha))
                else:
                    v = u / G[j, j]
                b[j] = min(max(v, lo[j]), hi[j])
        if np.max(np.abs(b - prev)) <= tol * np.max(np.abs(b)):
            break
        if it > max_it:
            break
    return b, it


def lambda_max(G, h, reg):
    """Smallest strength for which every regularised LASSO coefficient is zero."""
    h = np.ravel(h)
    if np.all(reg):
        return float(np.max(np.abs(h)))
    k = int(np.flatnonzero(~np.asarray(reg))[0])
    b0 = h[k] / G[k, k]
    return float(np.max(np.abs(h - G[k] * b0)))


def lambda_grid(lmax, eps, n):
    return np.exp(np.linspace(np.log(lmax), np.log(lmax * eps), n)) if n > 1 else np.array([lmax])


def cd_path(G, h, path, lams, reg, alpha, early_stop, lo, hi, start, tol, max_it):
    new = np.zeros_like(path)
    for i, lam in enumerate(lams):
        prev_lambda = new[max(i - 1, 0)]
        if start == "previous_lambda":
            b = prev_lambda
        elif start == "previous_fit":
            b = path[i]
        else:
            b = (prev_lambda + path[i]) / 2
        if early_stop > 0 and np.count_nonzero(b) >= early_stop:
            new[i] = b
        else:
            new[i], _ = coordinate_descent(G, h, b, lam, reg, alpha, lo, hi, tol, max_it)
    return new


def ic_value(name, ll, p, n):
    if name == "aic":
        return -2 * ll + 2 * p
    if name == "aicc":
        return -2 * ll + 2 * p * n / (n - p - 1)
    if name == "bic":
        return -2 * ll + p * np.log(n)
    if name == "hqc":
        return -2 * ll + 2 * p * np.log(np.log(n))
    if name == "max":
        return -ll
    raise ValueError(name)


def ll_from_rss(rss, n):
    return -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi))


def effective_n(forget, n):
    return float(n) if forget == 0 else (1 - (1 - forget) ** n) / forget


class MethodSpec:
    """Configuration of an estimation method shared by the reference and the implementation."""

    def __init__(self, kind="ols", **kw):
        self.kind = kind
        self.kw = dict(kw)

    @property
    def path(self):
        return self.kind in ("lasso", "elasticnet")

    def build(self):
        from ondil import methods as M

        if self.kind == "ols":
            return M.OrdinaryLeastSquares()
        if self.kind == "lasso":
            return M.LassoPath(**self.kw)
        if self.kind == "elasticnet":
            return M.ElasticNetPath(**self.kw)
        if self.kind == "ridge":
            return M.Ridge(**self.kw)
        raise ValueError(self.kind)


class RefRegression:
    """Weighted discounted Gram state plus solve, for one regression equation."""

    def __init__(self, spec, reg, forget):
        self.spec, self.reg, self.forget = spec, np.asarray(reg), forget
        self.G = self.H = None
        self.beta = None
        self.path = None
        self.lam = None

    def init(self, D, z, w):
        f = discount(len(z), self.forget) * w
        self.G = D.T @ (f[:, None] * D)
        self.H = D.T @ (f * z)
        self._solve(True)

    def peek_update(self, D, z, w):
        """State after an update, without committing it."""
        n = len(z)
        f = discount(n, self.forget) * w
        g = (1 - self.forget) ** n
        new = RefRegression(self.spec, self.reg, self.forget)
        new.G = g * self.G + D.T @ (f[:, None] * D)
        new.H = g * self.H + D.T @ (f * z)
        new.beta, new.path, new.lam = self.beta, self.path, self.lam
        new._solve(False)
        return new

    def _solve(self, initial):
        kw = self.spec.kw
        J = self.G.shape[0]
        if self.spec.kind == "ols":
            self.beta = np.linalg.solve(self.G, self.H)
            return
        lo = kw.get("beta_lower_bound")
        hi = kw.get("beta_upper_bound")
        lo = np.full(J, -np.inf) if lo is None else np.asarray(lo)
        hi = np.full(J, np.inf) if hi is None else np.asarray(hi)
        tol = kw.get("tolerance", 1e-4)
        mi = kw.get("max_iterations", 1000)
        if self.spec.kind == "ridge":
            if initial:
                self.lam = kw.get("lambda_reg")
                if self.lam is None:
                    self.lam = np.trace(self.G) / J
                sb = kw.get("start_beta")
                start = np.linalg.solve(self.G, self.H) if sb is None else np.asarray(sb, dtype=float)
            else:
                start = self.beta
            self.beta, _ = coordinate_descent(self.G, self.H, start, self.lam, self.reg, 0.0, lo, hi, tol, mi)
            return
        alpha = kw.get("alpha", 1.0) if self.spec.kind == "elasticnet" else 1.0
        n = kw.get("lambda_n", 100)
        lams = lambda_grid(lambda_max(self.G, self.H, self.reg), kw.get("lambda_eps", 1e-4), n)
        start = kw.get("start_value_initial", "previous_lambda") if initial else kw.get("start_value_update", "previous_fit")
        old = np.zeros((n, J)) if self.path is None else self.path
        self.path = cd_path(self.G, self.H, old, lams, self.reg, alpha, kw.get("early_stop", 0), lo, hi, start, tol, mi)


def nonzero(path):
    """Non-zero coefficients per path entry (up to rounding, in the unit of each coefficient)."""
    return np.sum(np.abs(path) > 1e-8 * np.max(np.abs(path), axis=0), axis=1)


class RefLinear:
    """Reference for the online linear model."""

    def __init__(self, spec, forget=0.0, scale_inputs=False, fit_intercept=True, regularize_intercept=False, ic="bic", j=1):
        self.spec, self.forget, self.fi, self.ic = spec, forget, fit_intercept, ic
        self.scaler = RefScaler(forget, scale_inputs, j)
        J = j + int(fit_intercept)
        reg = np.ones(J, dtype=bool)
        if fit_intercept:
            reg[0] = regularize_intercept
        self.r = RefRegression(spec, reg, forget)
        self.n = 0.0
        self.rss = None

    def design(self, X):
        D = self.scaler.transform(X)
        return np.hstack([np.ones((len(D), 1)), D]) if self.fi else D

    def add(self, X, y, w):
        X = np.asarray(X, dtype=float)
        self.scaler.add(X, w)
        D = self.design(X)
        first = self.n == 0
        self.n += w.sum()
        if first:
            self.r.init(D, y, w)
        else:
            self.r = self.r.peek_update(D, y, w)
        if self.spec.path:
            f = discount(len(y), self.forget) * w
            sse = (f[:, None] * (y[:, None] - D @ self.r.path.T) ** 2).sum(0)
            self.rss = sse if first else (1 - self.forget) ** len(y) * self.rss + sse
            n_eff = effective_n(self.forget, self.n)
            p = nonzero(self.r.path)
            self.ics = ic_value(self.ic, ll_from_rss(self.rss, n_eff), p, n_eff)
            self.best = int(np.argmin(self.ics))
            self.coef = self.r.path[self.best]
        else:
            self.coef = self.r.beta

    def predict(self, X):
        return self.design(X) @ self.coef
