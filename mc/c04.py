"""C04: exhaustive lattice of penalised least-squares problems, visiting orders and update histories."""
import itertools
from unittest import mock

import numpy as np

from ondil import coordinate_descent as CD
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, Ridge, get_estimation_method

from .ref import MethodSpec, RefLinear, cd_path, coordinate_descent, lambda_grid, lambda_max, soft
from .util import batches, close_scaled, compositions, data_matrix, maxdiff

ASSUMPTIONS = [
    "coordinate descent run to tolerance 1e-13 so that results do not depend on the stopping rule; comparisons at 1e-6",
    "coefficients within 1e-9 of zero are treated as zero",
]
CHUNK = 8
TIGHT = dict(tolerance=1e-13, max_iterations=100000)


def BOUNDS(tier):
    return (
        "J=1..3: product of Gram matrices x response vectors x lambda {0,.3,1,2.5,10} x alpha {0,.3,.5,1} x all regularisation masks x 4 bound boxes x start vectors; "
        "all permutation sequences of the first 3 random sweeps (J=3); orthogonal designs in closed form for lambda_n in {1,2,5,30,100}; "
        "fit+all compositions of 3 update rows through the estimator for lasso/elastic net/ridge x warm starts x bounds x early stop x intercept regularisation; units: Gram {1e-8,1,1e8} x response {1e-8..1e6} x strengths, and through the estimator units of X, y, weights; up to 41 coefficients"
    )


GRAMS = {
    1: [np.array([[1.0]]), np.array([[4.0]]), np.array([[0.5]])],
    2: [np.eye(2), np.array([[2.0, 1.0], [1.0, 3.0]]), np.array([[5.0, -2.0], [-2.0, 1.0]]), np.array([[10.0, 9.0], [9.0, 10.0]])],
    3: [
        np.eye(3),
        np.array([[4.0, 1.0, 0.5], [1.0, 3.0, -1.0], [0.5, -1.0, 2.0]]),
        np.array([[10.0, 6.0, 6.0], [6.0, 10.0, 6.0], [6.0, 6.0, 10.0]]),
        np.array([[6.0, -3.0, 0.0], [-3.0, 5.0, 2.0], [0.0, 2.0, 8.0]]),
    ],
}
HV = {1: (-2.0, -0.4, 0.0, 1.0, 3.0), 2: (-2.0, -0.4, 0.0, 1.0, 3.0), 3: (-2.0, 0.5, 3.0)}
LAMS = (0.0, 0.3, 1.0, 2.5, 10.0)
ALPHAS = (0.0, 0.3, 0.5, 1.0)


GENERIC = np.array([0.0137, -0.0071, 0.0233])  # keeps every problem off the measure-zero set where a sweep lands exactly on zero


def generic(h):
    h = np.array(h, dtype=float)
    return h + GENERIC[: len(h)]


def boxes(J):
    inf = np.inf
    yield "none", np.full(J, -inf), np.full(J, inf)
    yield "nonneg", np.zeros(J), np.full(J, inf)
    yield "box", np.full(J, -0.4), np.full(J, 0.6)
    lo, hi = np.full(J, -inf), np.full(J, inf)
    lo[0], hi[-1] = 0.1, -0.1 if J > 1 else 0.3
    yield "mixed", lo, hi


def cases(tier):
    for kind in ("lasso", "elasticnet", "ridge"):
        for sv in ("previous_lambda", "previous_fit", "average"):
            if kind == "ridge" and sv != "previous_lambda":
                continue
            for fi, ri in ((True, False), (True, True), (False, False)):
                for bnd in ("none", "nonneg", "box"):
                    for forget in (0.0, 0.1):
                        yield ("est", kind, sv, fi, ri, bnd, forget, 3 if tier == "quick" else 4)
    yield ("est-large", "lasso")
    yield ("est-large", "elasticnet")
    yield ("est-large", "ridge")
    for g in range(len(GRAMS[3])):
        for alpha in ALPHAS:
            yield ("orders", g, alpha)
    for J in (1, 2, 3):
        for g in range(len(GRAMS[J])):
            for alpha in ALPHAS:
                for b in range(4):
                    yield ("lattice", J, g, alpha, b)
    for alpha in (1.0, 0.5, 0.1, 0.0):
        for n in (1, 2, 5, 30, 100):
            yield ("ortho", alpha, n)
    for sv in ("previous_lambda", "previous_fit", "average"):
        for es in (0, 1, 2, 3, 4):
            yield ("early", sv, es)
    for alpha in ALPHAS:
        for J in (1, 2, 3):
            for g in range(len(GRAMS[J])):
                yield ("units", alpha, J, g)
    for kind in ("lasso", "elasticnet", "ridge"):
        yield ("est-units", kind)
    for sv in ("previous_lambda", "previous_fit", "average"):
        for forget in (0.0, 0.1):
            yield ("olasso", sv, forget)
    yield ("soft",)
    yield ("factory",)


def warmup():
    X = data_matrix(8, 2)
    for me in ("lasso", "elasticnet", Ridge()):
        m = OnlineLinearModel(method=me).fit(X, X[:, 0] + 1)
        m.update(X[:1], X[:1, 0])
        m.update(X[:2], X[:2, 0])


def certificate(G, h, b, lam, reg, alpha, lo, hi, tol=1e-6):
    """Optimality of every non-zero coordinate and feasibility of all; returns text or None."""
    if not (np.all(b >= lo - 1e-12) and np.all(b <= hi + 1e-12)):
        return f"bounds violated: {b} not in [{lo},{hi}]"
    s = np.abs(h).max() + np.abs(G).max() * np.abs(b).max() + lam + 1e-9
    for j in range(len(b)):
        if abs(b[j]) <= 1e-9:
            continue
        if not np.isfinite(b[j]):
            return f"coordinate {j} not finite: {b}"
        g = G[j] @ b - h[j]
        if reg[j]:
            g += lam * alpha * np.sign(b[j]) + lam * (1 - alpha) * b[j]
        if g > tol * s and b[j] > lo[j] + 1e-12:
            return f"coordinate {j} not optimal: gradient {g}, b={b}"
        if g < -tol * s and b[j] < hi[j] - 1e-12:
            return f"coordinate {j} not optimal: gradient {g}, b={b}"
    return None


def run_case(case, ctx):
    return globals()["case_" + case[0].replace("-", "_")](case, ctx)


def case_soft(case, ctx):
    for v in np.linspace(-3, 3, 49):
        for t in np.linspace(0, 4, 33):
            ctx.step()
            e = v - t if v > t else (v + t if v < -t else 0.0)
            if not abs(CD.soft_threshold(float(v), float(t)) - e) <= 1e-12:
                ctx.fail("soft", f"soft({v},{t}) = {CD.soft_threshold(v, t)}")
                return
            ctx.state(v, t)
    ctx.trace()


def case_lattice(case, ctx):
    _, J, g, alpha, b = case
    G = GRAMS[J][g]
    name, lo, hi = list(boxes(J))[b]
    for h in itertools.product(HV[J], repeat=J):
        h = generic(h)
        for lam in LAMS:
            for mask in itertools.product((True, False), repeat=J):
                reg = np.array(mask)
                for start in (np.zeros(J), np.linspace(1.0, -0.5, J), np.linalg.solve(G, h)):
                    s0 = start.copy()
                    out, it = CD.online_coordinate_descent(G, h, start, lam, reg, alpha, lo, hi, "cyclic", 1e-13, 100000)
                    ctx.step()
                    if not np.array_equal(s0, start):
                        ctx.fail("mutates", "start vector modified")
                        return
                    r, _ = coordinate_descent(G, h, start, lam, reg, alpha, lo, hi, 1e-13, 100000)
                    bad = certificate(G, h, out, lam, reg, alpha, lo, hi)
                    if bad:
                        ctx.fail("kkt:" + name, f"{bad} G={G.tolist()} h={h} lam={lam} alpha={alpha} reg={reg}")
                        return
                    if not close_scaled(out, r, 1e-6, scale=max(1.0, np.abs(r).max())):
                        ctx.fail("cd:" + name, f"{out} expected {r}; h={h} lam={lam} alpha={alpha} reg={reg} start={start}")
                        return
                    ctx.state(h, lam, alpha, out)
                    ctx.outcome(out)
                    ctx.trace()


def case_orders(case, ctx):
    """Every sequence of visiting orders in the first three random sweeps."""
    _, g, alpha = case
    G = GRAMS[3][g]
    fn = getattr(CD.online_coordinate_descent, "py_func", CD.online_coordinate_descent)
    st = getattr(CD.soft_threshold, "py_func", CD.soft_threshold)
    perms = [np.array(p) for p in itertools.permutations(range(3))]
    lo, hi = np.full(3, -np.inf), np.full(3, np.inf)
    problems = [
        (np.array([3.0, -2.0, 0.5]), 1.0, np.array([True, True, True])),
        (np.array([3.0, -2.0, 0.5]), 1.0, np.array([False, True, True])),
        (np.array([0.5, 3.0, 3.0]), 0.3, np.array([True, False, True])),
    ]
    for h, lam, reg in problems:
        for seq in itertools.product(range(6), repeat=3):
            def order(k):
                return perms[seq[k]] if k < len(seq) else perms[0]

            calls = [0]

            def fake(J):
                k = calls[0]
                calls[0] += 1
                return order(k)

            with mock.patch.object(np.random, "permutation", fake):
                out, _ = fn(G, h, np.array([0.3, -0.2, 0.1]), lam, reg, alpha, lo, hi, "random", 1e-13, 5000)
            ctx.step()
            bad = certificate(G, h, out, lam, reg, alpha, lo, hi)
            if bad:
                ctx.fail("order-kkt", f"{bad} seq={seq}")
                return
            r, _ = coordinate_descent(G, h, np.array([0.3, -0.2, 0.1]), lam, reg, alpha, lo, hi, 1e-13, 5000, orders=lambda it: order(it - 2))
            if calls[0] and not close_scaled(out, r, 1e-6, scale=1.0):
                ctx.fail("order", f"{out} expected {r} seq={seq}")
                return
            if not np.any(np.abs(out) < 1e-9):
                full = np.linalg.solve(G + np.diag(lam * (1 - alpha) * reg), h - lam * alpha * reg * np.sign(out))
                if not close_scaled(out, full, 1e-6, scale=1.0):
                    ctx.fail("order-min", f"{out} is not the unique minimiser {full}")
                    return
            ctx.state(h, seq, out)
            ctx.outcome(out)
            ctx.trace()
        # compiled code with its own random orders: guarantees must hold as well
        for _ in range(5):
            out, _ = CD.online_coordinate_descent(G, h, np.array([0.3, -0.2, 0.1]), lam, reg, alpha, lo, hi, "random", 1e-13, 5000)
            bad = certificate(G, h, out, lam, reg, alpha, lo, hi)
            if bad:
                ctx.fail("order-kkt", bad)


def case_ortho(case, ctx):
    """Orthogonal design: closed-form solution pins the grid of strengths."""
    _, alpha, n = case
    for d in (1.0, 2.5):
        for h in ([3.0, -2.0, 0.5], [-3.0, -2.0, -0.5], [1.0, 1.0, 1.0], [-0.2, 5.0, 0.0]):
            for eps in (1e-4, 1e-2, 0.5):
                for reg in ([True] * 3, [False, True, True], [True, True, False]):
                    h_, reg_ = generic(h), np.array(reg)
                    G = np.eye(3) * d
                    lmax = np.abs(h_[reg_]).max()
                    me = LassoPath(lambda_n=n, lambda_eps=eps, **TIGHT) if alpha == 1.0 else ElasticNetPath(alpha=alpha, lambda_n=n, lambda_eps=eps, **TIGHT)
                    lams = lambda_grid(lmax, eps, n)
                    path = me.fit_beta_path(x_gram=G, y_gram=h_[:, None], is_regularized=reg_)
                    ctx.step()
                    exp = np.zeros((n, 3))
                    for i, lam in enumerate(lams):
                        for j in range(3):
                            exp[i, j] = soft(h_[j], alpha * lam) / (d + (1 - alpha) * lam) if reg_[j] else h_[j] / d
                    if path.shape != exp.shape or not close_scaled(path, exp, 1e-7, scale=3.0):
                        ctx.fail("ortho", f"alpha={alpha} n={n} eps={eps} h={h} reg={reg}: {maxdiff(path, exp)}")
                        return
                    p2 = me.update_beta_path(x_gram=G * 2, y_gram=h_[:, None] * 2, beta_path=path, is_regularized=reg_)
                    ctx.step()
                    for i, lam in enumerate(lams * 2):
                        for j in range(3):
                            exp[i, j] = soft(2 * h_[j], alpha * lam) / (2 * d + (1 - alpha) * lam) if reg_[j] else h_[j] / d
                    if not close_scaled(p2, exp, 1e-7, scale=3.0):
                        ctx.fail("ortho-update", f"alpha={alpha} n={n} eps={eps} h={h} reg={reg}")
                        return
                    ctx.state(path)
                    ctx.trace()
    if alpha == 0.0:
        # ridge: closed form on correlated designs, fit and update
        for J in (1, 2, 3):
            for G in GRAMS[J]:
                for h in itertools.product((-2.0, 0.5, 3.0), repeat=J):
                    h = generic(h)
                    for mask in itertools.product((True, False), repeat=J):
                        reg = np.array(mask)
                        for lam in (0.1, 1.0, 20.0, None):
                            me = Ridge(lambda_reg=lam, **TIGHT)
                            b = me.fit_beta(x_gram=G, y_gram=h[:, None], is_regularized=reg)
                            l = np.trace(G) / J if lam is None else lam
                            e = np.linalg.solve(G + np.diag(l * reg.astype(float)), h)
                            e2 = np.linalg.solve(3 * G + np.diag(l * reg.astype(float)), h + 1)
                            b2 = me.update_beta(x_gram=3 * G, y_gram=h[:, None] + 1, beta=b, is_regularized=reg)
                            ctx.step(2)
                            if not close_scaled(b, e, 1e-6, scale=1.0) or not close_scaled(b2, e2, 1e-6, scale=1.0):
                                if np.all(np.abs(e) > 1e-9) and np.all(np.abs(e2) > 1e-9):
                                    ctx.fail("ridge-closed", f"{b} vs {e}; {b2} vs {e2}; lam={lam} reg={reg}")
                                    return
                            ctx.state(b)
                            ctx.trace()


def case_early(case, ctx):
    _, sv, es = case
    for gi, G in enumerate(GRAMS[3]):
        for h in itertools.product((-2.0, 0.5, 3.0), repeat=3):
            h = generic(h)
            for reg in (np.array([True] * 3), np.array([False, True, True])):
                for alpha in (1.0, 0.5):
                    me = ElasticNetPath(alpha=alpha, lambda_n=12, lambda_eps=1e-3, early_stop=es, start_value_initial=sv, start_value_update=sv, **TIGHT)
                    inf = np.full(3, np.inf)
                    path0 = np.zeros((12, 3))
                    for step in range(2):
                        Gs, hs = G * (1 + step), h * (1 + 0.5 * step)
                        lams = lambda_grid(lambda_max(Gs, hs, reg), 1e-3, 12)
                        if step == 0:
                            path = me.fit_beta_path(x_gram=Gs, y_gram=hs[:, None], is_regularized=reg)
                        else:
                            path = me.update_beta_path(x_gram=Gs, y_gram=hs[:, None], beta_path=path0, is_regularized=reg)
                        ctx.step()
                        for i in range(12):
                            prev = path[i - 1] if i > 0 else np.zeros(3)
                            start = {"previous_lambda": prev, "previous_fit": path0[i], "average": (prev + path0[i]) / 2}[sv]
                            clear = int(np.sum(np.abs(start) > 1e-9))
                            some = int(np.sum(start != 0))
                            if es > 0 and clear >= es:
                                if not close_scaled(path[i], start, 1e-12):
                                    ctx.fail("early", f"row {i} changed after {clear} >= {es} non-zero coefficients ({sv}) h={h}")
                                    return
                            elif es == 0 or some < es:
                                exp, _ = coordinate_descent(Gs, hs, start, lams[i], reg, alpha, -inf, inf, 1e-13, 100000)
                                if not close_scaled(path[i], exp, 1e-6, scale=1.0):
                                    ctx.fail("early-cd", f"row {i}: {path[i]} expected {exp} ({sv}, es={es}) h={h} reg={reg} alpha={alpha} step={step}")
                                    return
                        path0 = path
                        ctx.state(path)
                    ctx.outcome(path)
                    ctx.trace()


def est_spec(kind, sv, bnd, J):
    kw = dict(TIGHT)
    if bnd == "nonneg":
        kw["beta_lower_bound"] = np.zeros(J)
    if bnd == "box":
        kw["beta_lower_bound"] = np.full(J, -0.4)
        kw["beta_upper_bound"] = np.full(J, 0.7)
    if kind == "ridge":
        return [MethodSpec("ridge", lambda_reg=lr, **kw) for lr in (None, 0.5, 25.0)]
    kw.update(lambda_n=9, lambda_eps=1e-3, start_value_update=sv)
    if kind == "elasticnet":
        return [MethodSpec("elasticnet", alpha=a, **kw) for a in (0.5, 0.1)]
    return [MethodSpec("lasso", **kw)]


def drive(ctx, spec, X, y, w, parts, forget, fi, ri, sel, tag):
    est = OnlineLinearModel(forget=forget, scale_inputs=sel, fit_intercept=fi, regularize_intercept=ri, method=spec.build(), ic="bic")
    ref = RefLinear(spec, forget, sel, fi, ri, "bic", X.shape[1])
    for k, s in enumerate(batches(parts)):
        (est.fit if k == 0 else est.update)(X[s], y[s], sample_weight=w[s])
        ref.add(X[s], y[s], w[s])
        ctx.step()
        lo = spec.kw.get("beta_lower_bound")
        hi = spec.kw.get("beta_upper_bound")
        J = ref.r.G.shape[0]
        lo = np.full(J, -np.inf) if lo is None else lo
        hi = np.full(J, np.inf) if hi is None else hi
        if spec.path:
            got, exp = np.asarray(est.coef_path_), ref.r.path
            if not close_scaled(est.beta_path, got, 1e-12):
                ctx.fail("beta_path:" + tag, "beta_path differs from coef_path_")
                return False
            lams = lambda_grid(lambda_max(ref.r.G, ref.r.H, ref.r.reg), spec.kw["lambda_eps"], spec.kw["lambda_n"])
            alpha = spec.kw.get("alpha", 1.0)
            if got.shape != exp.shape:
                ctx.fail("shape:" + tag, f"{got.shape} vs {exp.shape}")
                return False
            for i, lam in enumerate(lams):
                bad = certificate(ref.r.G, ref.r.H, got[i], lam, ref.r.reg, alpha, lo, hi, 1e-6)
                if bad:
                    ctx.fail("kkt:" + tag, f"row {i}: {bad} parts={parts} step={k}")
                    return False
        else:
            got, exp = np.asarray(est.coef_), ref.r.beta
            bad = certificate(ref.r.G, ref.r.H, got, ref.r.lam, ref.r.reg, 0.0, lo, hi, 1e-6)
            if bad:
                ctx.fail("kkt:" + tag, f"{bad} parts={parts} step={k}")
                return False
        if not close_scaled(got, exp, 1e-6, scale=max(1.0, np.abs(exp).max())):
            ctx.fail("path:" + tag, f"diff {maxdiff(got, exp)} parts={parts} step={k}")
            return False
        ctx.state(got)
    ctx.outcome(got)
    ctx.trace()
    return True


def case_est(case, ctx):
    _, kind, sv, fi, ri, bnd, forget, m = case
    for j in (1, 2, 3):
        J = j + int(fi)
        n0 = j + 4
        n = n0 + m
        for variant in (0, 1):
            X = data_matrix(n, j, variant)
            y = 0.7 + X @ np.array([1.0, -0.5, 0.2])[:j] + 0.2 * data_matrix(n, 1, 4)[:, 0]
            if variant == 1:
                y = -y
            w = np.array([1.0, 2.0, 0.5, 1.5])[np.arange(n) % 4]
            for spec in est_spec(kind, sv, bnd, J):
                for comp in compositions(m):
                    for sel in (False, True):
                        if not drive(ctx, spec, X, y, w, (n0,) + comp, forget, fi, ri, sel, f"{kind}:{bnd}"):
                            ctx.violations[-1]["msg"] += f" j={j} variant={variant} sel={sel} spec={spec.kw}"
                            return


def case_est_large(case, ctx):
    _, kind = case
    for j in (6, 12, 40):
        n = 260
        X = data_matrix(n, j, 0)
        y = 0.7 + X[:, :3] @ np.array([1.0, -0.5, 0.2]) + data_matrix(n, 1, 4)[:, 0]
        w = np.array([1.0, 2.0, 0.5, 1.5])[np.arange(n) % 4]
        for spec in est_spec(kind, "previous_fit", "none", j + 1) + est_spec(kind, "previous_lambda", "box", j + 1):
            for parts in ((60,), (60, 1, 1, 1), (60, 64, 65), (100, 130, 30), (20, 1, 40)):
                if j == 40 and len(parts) > 3:
                    continue
                if not drive(ctx, spec, X, y, w, parts, 0.005, True, False, True, f"large:{kind}"):
                    return


def case_units(case, ctx):
    """The problems of the lattice in other units: Gram times g, response vector times h, strength times h give the solution times h/g."""
    _, alpha, Jc, gc = case
    for J in (Jc,):
        lo, hi = np.full(J, -np.inf), np.full(J, np.inf)
        for G0 in GRAMS[J][gc : gc + 1]:
            for h0 in itertools.product((-2.0, 0.5, 3.0), repeat=J):
                h0 = generic(h0)
                for gs, hs in itertools.product((1e-8, 1.0, 1e8), (1e-8, 1e-4, 1.0, 1e6)):
                    G, h = G0 * gs, h0 * hs
                    # strengths in the unit of the response vector (lasso part) or of the Gram matrix (ridge part)
                    for l0 in (0.0, 1e-6, 0.3, 2.5):
                        lam = l0 * (hs if alpha == 1.0 else gs)
                        for mask in itertools.product((True, False), repeat=J):
                            reg = np.array(mask)
                            out, _ = CD.online_coordinate_descent(G, h, np.zeros(J), lam, reg, alpha, lo, hi, "cyclic", 1e-13, 100000)
                            r, _ = coordinate_descent(G, h, np.zeros(J), lam, reg, alpha, lo, hi, 1e-13, 100000)
                            ctx.step()
                            if not np.all(np.abs(out - r) <= 1e-7 * np.abs(r).max()):
                                return ctx.fail("units", f"{out} expected {r}: G={G.tolist()} h={h} lambda={lam} alpha={alpha} reg={reg}")
                    for reg in (np.ones(J, dtype=bool), np.arange(J) > 0):
                        if not reg.any() or alpha not in (1.0, 0.5):
                            continue
                        me = LassoPath(lambda_n=7, lambda_eps=1e-3, **TIGHT) if alpha == 1.0 else ElasticNetPath(alpha=alpha, lambda_n=7, lambda_eps=1e-3, **TIGHT)
                        lams = lambda_grid(lambda_max(G, h, reg), 1e-3, 7)
                        exp = np.zeros((7, J))
                        prev = np.zeros(J)
                        for i, lam in enumerate(lams):
                            exp[i], _ = coordinate_descent(G, h, prev, lam, reg, alpha, lo, hi, 1e-13, 100000)
                            prev = exp[i]
                        me.start_value_update = "previous_lambda"
                        for got in (me.fit_beta_path(x_gram=G, y_gram=h[:, None], is_regularized=reg), me.update_beta_path(x_gram=G, y_gram=h[:, None], beta_path=exp * 0.5, is_regularized=reg)):
                            ctx.step()
                            if not np.all(np.abs(got - exp) <= 1e-6 * np.abs(exp).max()):
                                return ctx.fail("units-path", f"{got.tolist()} expected {exp.tolist()}: G={G.tolist()} h={h} alpha={alpha} reg={reg}")
                    ctx.trace()
                    ctx.state(alpha, J, h0, gs, hs)


def case_est_units(case, ctx):
    _, kind = case
    for xs, ys, ws, forget in itertools.product((1e-4, 1e3), (1e-5, 1.0, 1e4), (1e-4, 1.0, 1e4), (0.0, 1e-5, 0.1)):
        X = data_matrix(14, 3, 0)
        y = (0.7 + X @ np.array([1.0, -0.5, 0.2]) + 0.2 * data_matrix(14, 1, 4)[:, 0]) * ys
        X = (X + 2.0) * xs
        w = np.array([1.0, 2.0, 0.5, 1.5])[np.arange(14) % 4] * ws
        for spec in est_spec(kind, "previous_fit", "none", 4):
            for parts in ((14,), (8, 6), (8, 1, 2, 3), (8, 1, 1, 1, 1, 1, 1)):
                est = OnlineLinearModel(forget=forget, method=spec.build(), ic="aic")
                ref = RefLinear(spec, forget, True, True, False, "aic", 3)
                for k, s in enumerate(batches(parts)):
                    (est.fit if k == 0 else est.update)(X[s], y[s], sample_weight=w[s])
                    ref.add(X[s], y[s], w[s])
                    ctx.step()
                    got, exp = (est.coef_path_, ref.r.path) if spec.path else (est.coef_, ref.r.beta)
                    if got.shape != exp.shape or not np.all(np.abs(got - exp) <= 1e-6 * np.abs(exp).max()):
                        return ctx.fail("units:" + kind, f"units x {xs}, y {ys}, weights {ws}, forget {forget}, parts {parts}, step {k}, {spec.kw}: {np.asarray(got).tolist()} expected {exp.tolist()}")
                ctx.trace()
                ctx.state(kind, xs, ys, ws, forget, parts)


def case_olasso(case, ctx):
    """OnlineLasso is the linear model with the LASSO path of the same options (which the other cases decide)."""
    _, sv, forget = case
    X = data_matrix(15, 3, 1)
    y = 0.7 + X @ np.array([1.0, -0.5, 0.2]) + 0.2 * data_matrix(15, 1, 4)[:, 0]
    w = np.array([1.0, 2.0, 0.5, 1.5])[np.arange(15) % 4]
    inf = np.inf
    for es, bnd, (ln, le), (tol, mi), ic, (fi, ri), sel in itertools.product(
        (0, 2), ("none", "lower", "upper"), ((9, 1e-3), (25, 0.2)), ((1e-13, 100000), (0.5, 3)), ("aic", "max"), ((True, False), (True, True), (False, False)), (True, False)
    ):
        J = 3 + int(fi)
        lo = np.r_[[-inf] * (J - 3), -0.3, -0.1, 0.05] if bnd == "lower" else None
        hi = np.r_[[inf] * (J - 3), 0.4, inf, 0.1] if bnd == "upper" else None
        common = dict(forget=forget, scale_inputs=sel, fit_intercept=fi, regularize_intercept=ri, ic=ic)
        me = dict(lambda_n=ln, lambda_eps=le, early_stop=es, tolerance=tol, max_iterations=mi, beta_lower_bound=lo, beta_upper_bound=hi)
        a = OnlineLasso(start_value=sv, **common, **me)
        b = OnlineLinearModel(method=LassoPath(start_value_initial="previous_lambda", start_value_update=sv, **me), **common)
        for k, s in enumerate(batches((9, 1, 2, 3))):
            for e in (a, b):
                (e.fit if k == 0 else e.update)(X[s], y[s], sample_weight=w[s])
            ctx.step(2)
            if not close_scaled(a.coef_path_, b.coef_path_, 1e-9, scale=1.0) or not close_scaled(a.coef_, b.coef_, 1e-9, scale=1.0):
                return ctx.fail("olasso", f"OnlineLasso({sv}, {common}, {me}) differs from the linear model with the same LASSO path after call {k}: {a.coef_} vs {b.coef_}")
            if es == 0 and (lo is not None and np.any(a.coef_path_ < lo - 1e-12) or hi is not None and np.any(a.coef_path_ > hi + 1e-12)):
                return ctx.fail("olasso-bounds", f"bounds {lo} {hi} violated: {a.coef_path_.tolist()}")
        ctx.trace()
        ctx.state(sv, forget, es, bnd, ln, tol, ic, fi, ri, sel)


def case_factory(case, ctx):
    """Names map to the documented methods; objects are copied, not shared; defaults are as documented."""
    import inspect

    a, b, c = (get_estimation_method(k) for k in ("lasso", "elasticnet", "ols"))
    X = data_matrix(30, 3)
    y = 0.5 + X @ np.array([1.0, 0.0, -0.3]) + 0.3 * data_matrix(30, 1, 4)[:, 0]
    for name, obj in (("lasso", LassoPath()), ("elasticnet", ElasticNetPath(alpha=0.5))):
        p = OnlineLinearModel(method=name).fit(X, y)
        q = OnlineLinearModel(method=obj).fit(X, y)
        ctx.step(2)
        if not close_scaled(p.coef_path_, q.coef_path_, 1e-9) or p.coef_path_.shape != (100, 4):
            ctx.fail("factory:" + name, "string and object give different paths or not 100 strengths")
    try:
        get_estimation_method("nonsense")
        ctx.fail("factory", "unknown method accepted")
    except ValueError:
        pass
    for cls, wrong in ((LassoPath, "Lower"), (Ridge, "Lower")):
        me = cls(beta_lower_bound=np.zeros(2))
        try:
            OnlineLinearModel(method=me).fit(X, y)
            ctx.fail("bounds-length", f"{cls.__name__}: wrong length accepted")
        except ValueError:
            pass
    ctx.trace()
    ctx.state("factory")
