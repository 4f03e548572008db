"""C07: every history of updates of the distributional regression against the discounted IRLS recursion."""
import itertools

import numpy as np

from ondil.estimators import OnlineDistributionalRegression as ODR

from . import gamdata, laws
from .c06 import ALT, EQS, eq_for, fdict, method_variants
from .gamdata import BASE, build, make_data, make_dist, quiet, weights
from .gamref import GamRef, Undecided
from .ref import discount
from .util import batches, batches_ok, close_scaled, compositions

ASSUMPTIONS = [
    "exact mode: max_it_inner=1, zero tolerances (K plain iterations per call); derivatives of the families as implemented (decided by C08-C10)",
    "convergence mode: judged only where the reference iteration converges; agreement within 2e-4 of the coefficient scale",
    "predictors beyond |eta| = 12 on non-identity links are not judged against the reference (finite results are still required)",
]
CHUNK = 3


def BOUNDS(tier):
    m = 4 if tier == "quick" else 6
    return (
        f"17 families: fit on 26 rows, then all {2 ** (m - 1)} compositions of {m} further rows into updates x forget {{0,.03,per parameter}} x 4 weight patterns x K=1,2 iterations x equations/scaling; alternative links; all parameter orders; "
        "4 method mixes; batches up to 60 rows x 8 columns and 60-step histories; schedule options (cautious updates, prefit, minimum iterations) with and without outliers; units of y {1e-4..1e3}, X {1e-5,1e5}, weights {1e-5,1e5}, forget down to 1e-6; convergence mode with inner iterations; every boundary, atom and extreme response x batch position"
    )


def cases(tier):
    m = 4 if tier == "quick" else 6
    seeds = (1,) if tier == "quick" else (1, 2, 4)
    for seed in seeds:
        for name in laws.LAWS:
            for forget in (0.0, 0.02):
                for wp in ("none", "mixed"):
                    yield ("conv", name, forget, wp, seed)
        for name in laws.LAWS:
            for forget in ("0", "0.03", "dict"):
                for wp in gamdata.WPATS:
                    yield ("hist", name, forget, wp, m, seed)
        for name in laws.LAWS:
            sd = 2 if name == "StudentT" and seed == 1 else seed  # data on which the reference iteration stays in range
            yield ("links", name, sd)
            yield ("order", name, sd)
            yield ("opts", name, sd)
            yield ("wide", name, sd)
            yield ("inner", name, sd)
            yield ("units", name, sd)
            for k in range(npoints(name)):
                yield ("support", name, k, seed)
        for name in ("Normal", "Gamma", "StudentT", "Logistic"):
            for mv in range(5):
                yield ("methods", name, mv, seed)
            yield ("long", name, 2 if name == "StudentT" and seed == 1 else seed)
            yield ("big", name, seed)


def warmup():
    gamdata.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def same(ctx, est, ref, tag, tol=1e-6, floor=1.0):
    for p in range(ref.P):
        c = np.asarray(est.coef_[p])
        if c.shape != ref.coef[p].shape or not np.all(np.abs(c - ref.coef[p]) <= tol * max(floor, np.abs(ref.coef[p]).max())):
            ctx.fail("coef", f"{tag}: parameter {p}: {c} expected {ref.coef[p]}")
            return False
        if not close_scaled(float(est.n_training_[p]), ref.n_eff(p), 1e-9):
            ctx.fail("n_training", f"{tag}: parameter {p}: {est.n_training_[p]} expected {ref.n_eff(p)}")
            return False
    if not close_scaled(float(est.n_observations_), ref.n, 1e-9):
        ctx.fail("n_observations", f"{tag}: {est.n_observations_} expected {ref.n}")
        return False
    return True


def drive(ctx, est, ref, X, y, w, parts, sw, tag, partial=False, tol=1e-6, floor=1.0):
    for i, s in enumerate(batches(parts)):
        try:
            (ref.fit if i == 0 else ref.update)(X[s], y[s], w[s])
        except (Undecided, np.linalg.LinAlgError):
            ctx.outcome("undecided")
            return True
        if any(np.abs(ref.coef[p]).max() > 1e4 * max(1.0, floor) for p in range(ref.P)):
            ctx.outcome("diverged")
            return True
        call = est.partial_fit if partial else (est.fit if i == 0 else est.update)
        with quiet():
            call(X[s], y[s], sample_weight=w[s] if sw else None)
        ctx.step()
        if not same(ctx, est, ref, f"{tag} after call {i} of {parts}", tol, floor):
            return False
        ctx.state([est.coef_[p] for p in range(ref.P)])
    probe = X[:3] * 0.6 - 0.2
    T, E = est.predict_distribution_parameters(probe), ref.predict(probe)
    if not close_scaled(T, E, tol * 50, scale=max(1.0, np.abs(E).max())):
        ctx.fail("predict", f"{tag}: {T.tolist()} expected {E.tolist()}")
        return False
    ctx.trace()
    return True


HCFG = (("default", True, 1), ("cols", False, 1), ("both", True, 2), ("mask", "mask", 1))


def case_hist(case, ctx):
    _, name, forget, wp, m, seed = case
    P = len(BASE[name])
    n0 = 26
    X, y = make_data(name, n0 + m, 3, seed)
    w = weights(wp, n0 + m)
    for eqn, scale, K in HCFG:
        sc = np.array([True, False, True]) if isinstance(scale, str) else scale
        for ci, comp in enumerate(compositions(m)):
            parts = (n0,) + comp
            if not batches_ok(w, parts):
                continue
            est, ref = build(name, 3, eq=eq_for(eqn, P), forget=fdict(forget, P), scale=sc, K=K)
            if not drive(ctx, est, ref, X, y, w, parts, wp != "none", f"{name} {eqn} forget={forget} w={wp} scale={scale} K={K}", partial=ci % 2 == 1):
                return


def HET(P):
    """Covariates in the second parameter as well, so that the iterations do not end after one step."""
    return {0: "all", 1: [0]} if P > 1 else {0: "all"}


def case_links(case, ctx):
    _, name, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 31, 2, seed)
    w = weights("mixed", 31)
    for links in ALT[name]:
        for forget in ("0", "dict"):
            for parts in ((26, 1, 1, 1, 1, 1), (26, 2, 3), (26, 5)):
                est, ref = build(name, 2, links=links, eq=HET(P), forget=fdict(forget, P), K=2)
                if not drive(ctx, est, ref, X, y, w, parts, True, f"{name} links={links} forget={forget}"):
                    return


def case_order(case, ctx):
    _, name, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 31, 2, seed)
    w = weights("mixed", 31)
    for order in itertools.permutations(range(P)):
        for forget in ("0", "dict"):
            for K in (1, 3):
                est, ref = build(name, 2, eq={0: "all", 1: [1]} if P > 1 else {0: "all"}, forget=fdict(forget, P), K=K, order=order)
                if not drive(ctx, est, ref, X, y, w, (26, 1, 3, 1), True, f"{name} order={order} forget={forget} K={K}"):
                    return


def case_opts(case, ctx):
    """Options that only change the schedule: K plain iterations whatever they are, with and without an outlying observation."""
    _, name, seed = case
    P = len(BASE[name])
    L, th = laws.LAWS[name], BASE[name]
    X, y0 = make_data(name, 31, 2, seed)
    w = weights("mixed", 31)
    out = float(L.ppf(0.9993, *th))
    for kw in (dict(cautious_updates=True), dict(prefit_update=2), dict(prefit_initial=2), dict(min_it_outer=4), dict(cautious_updates=True, prefit_update=3, min_it_outer=2), dict(debug=True, verbose=0)):
        for pos in (None, 27, 29):
            y = y0.copy()
            if pos is not None:
                y[pos] = out
            for forget in ("0", "dict"):
                eq = HET(P) if name not in ("BetaInflatedZero", "ZeroAdjustedGamma") else {0: "all", 1: [0], 2: [1]}
                est, ref = build(name, 2, eq=eq, forget=fdict(forget, P), K=5 if len(eq) < 3 else 4, **kw)
                if not drive(ctx, est, ref, X, y, w, (26, 1, 3, 1), True, f"{name} {kw} outlier at {pos} forget={forget}"):
                    return


def case_inner(case, ctx):
    """Several inner iterations per parameter in every update, each from the same discounted summary of the past."""
    _, name, seed = case
    P = len(BASE[name])
    for sd in range(seed, seed + 5):
        X, y = make_data(name, 46, 2, sd)
        for eq in ({0: "all"}, {0: "all", 1: [1]}):
            eq = {p: v for p, v in eq.items() if p < P}
            for forget in ("0", "dict"):
                for wp in ("none", "mixed"):
                    for parts in ((40, 1, 5), (38, 7), (36, 2, 3)):
                        for M, K in ((2, 1), (3, 1), (2, 2)):
                            if not batches_ok(weights(wp, 46), parts):
                                continue
                            est, ref = build(name, 2, eq=eq, forget=fdict(forget, P), K=K, M=M)
                            if not drive(ctx, est, ref, X, y, weights(wp, 46), parts, wp != "none", f"{name} {eq} forget={forget} w={wp} K={K} inner={M} data {sd}"):
                                return


UNITS = (1e-4, 1e-2, 30.0, 1e3)


def in_units(name, s):
    """Families whose support allows the response in other units."""
    L = laws.LAWS[name]
    return L.hi != 1


def case_units(case, ctx):
    """The same histories with the response, the covariates or the weights in other units; very small forget factors."""
    _, name, seed = case
    P = len(BASE[name])
    X0, y0 = make_data(name, 31, 2, seed)
    w0 = weights("mixed", 31)
    for ys, xs, ws in [(u, 1.0, 1.0) for u in UNITS if in_units(name, u)] + [(1.0, 1e-5, 1.0), (1.0, 1e5, 1.0), (1.0, 1.0, 1e-5), (1.0, 1.0, 1e5)]:
        X, y, w = X0 * xs, y0 * ys, w0 * ws
        if ws < 1:
            w[:26] = w0[:26] * 1.0  # the first fit needs a total weight of at least the number of columns
        for forget in ("0", "dict") + ((1e-6, 1e-4) if (ys, xs, ws) == (1.0, 1e5, 1.0) else ()):
            f = fdict(forget, P) if isinstance(forget, str) else forget
            for parts in ((26, 1, 1, 3), (26, 5)):
                for K in (1, 3):
                    for scale in (True, False) if xs == 1.0 else (True,):
                        est, ref = build(name, 2, eq=HET(P), forget=f, scale=scale, K=K)
                        if not drive(ctx, est, ref, X, y, w, parts, True, f"{name} units y {ys} x {xs} w {ws} forget={forget} K={K} scale={scale}", tol=1e-7 if f == 1e-6 else 1e-6, floor=min(1.0, ys)):
                            return


def case_methods(case, ctx):
    _, name, mv, seed = case
    P = len(BASE[name])
    X, y = make_data(name, 42, 4, seed)
    spec = method_variants(mv, P)
    for forget in ("0", "0.03", "dict"):
        for K in (1, 2):
            for ri in (False, True):
                for wp in ("none", "mixed"):
                    for parts in ((36, 1, 1, 1, 3), (36, 4, 2), (36, 6)):
                        est, ref = build(name, 4, eq={0: "all", 1: [0, 3]}, forget=fdict(forget, P), K=K, method=spec, regularize_intercept=ri)
                        if not drive(ctx, est, ref, X, y, weights(wp, 42), parts, wp != "none", f"{name} methods {mv} forget={forget} K={K} regint={ri} w={wp}", tol=5e-6):
                            return


def case_long(case, ctx):
    _, name, seed = case
    X, y = make_data(name, 90, 2, seed)
    for wp in ("none", "mixed"):
        w = weights(wp, 90)
        for forget in (0.0, 0.01, 0.1):
            for scale in (True, False):
                est, ref = build(name, 2, eq={0: "all", 1: "all"}, forget=forget, scale=scale, K=1)
                if not drive(ctx, est, ref, X, y, w, (30,) + (1,) * 60, wp != "none", f"{name} forget={forget} scale={scale} w={wp}", tol=1e-5):
                    return


def case_big(case, ctx):
    _, name, seed = case
    for j in (1, 3, 8):
        X, y = make_data(name, 40 + 150, j, seed)
        w = weights("mixed", 190)
        for forget in (0.0, 0.005, {0: 0.01, 1: 0.0, 2: 0.02}):
            f = {p: forget[p] for p in range(len(BASE[name]))} if isinstance(forget, dict) else forget
            for scale in (True, False):
                for parts in ((40, 60, 1, 59, 30), (40, 150), (40, 2, 3, 5, 7, 11, 13, 17, 19, 23, 50)):
                    est, ref = build(name, j, eq={0: "all", 1: "all"}, forget=f, scale=scale, K=2)
                    if not drive(ctx, est, ref, X, y, w, parts, True, f"{name} j={j} forget={forget} scale={scale}", tol=1e-5):
                        return


def case_wide(case, ctx):
    """Batches of more than a thousand rows and designs of more than a dozen columns."""
    _, name, seed = case
    P = len(BASE[name])
    for j, parts in ((2, (40, 130, 1, 1100, 300)), (2, (1300, 2, 520)), (14, (80, 1, 200, 3))):
        n = sum(parts)
        X, y = make_data(name, n, j, seed)
        w = weights("mixed", n)
        for forget in (0.0, {p: (0.002, 0.0, 0.0005, 0.001)[p] for p in range(P)}):
            est, ref = build(name, j, eq=HET(P), forget=forget, K=2)
            if not drive(ctx, est, ref, X, y, w, parts, True, f"{name} {j} columns forget={forget}", tol=1e-5):
                return


class ConvRef(GamRef):
    """Iterates to numerical convergence instead of a fixed count; no step control."""

    def _until(self, one):
        for _ in range(400):
            before = [self.coef[p].copy() for p in range(self.P)]
            one()
            if max(np.max(np.abs(self.coef[p] - before[p])) for p in range(self.P)) < 1e-11:
                return
        raise Undecided("reference does not converge")

    def fit(self, X, y, w):
        self.scaler.add(X, w)
        Xs = self.scaler.transform(X)
        self.n = w.sum()
        D = {p: self.design(Xs, p) for p in range(self.P)}
        for p in range(self.P):
            self.coef[p] = np.zeros(D[p].shape[1])
        fv = np.array(self.d.initial_values(y), dtype=float)

        def one():
            for p in self.order:
                z, wt = self.working(y, fv, p)
                fw = discount(len(y), self.forget[p]) * w * wt
                G, H = D[p].T @ (fw[:, None] * D[p]), D[p].T @ (fw * z)
                self.coef[p] = np.linalg.solve(G, H)
                fv[:, p] = self.d.link_inverse(D[p] @ self.coef[p], param=p)
                self.r[p] = (G, H)

        self._until(one)

    def update(self, X, y, w):
        fv = self.predict(X)
        self.n += w.sum()
        self.scaler.add(X, w)
        Xs = self.scaler.transform(X)
        m = len(y)
        old = dict(self.r)
        new = {}
        old_beta = {p: self.coef[p].copy() for p in range(self.P)}

        def one():
            for p in self.order:
                D = self.design(Xs, p)
                g = (1 - self.forget[p]) ** m
                z, wt = self.working(y, fv, p)
                fw = discount(m, self.forget[p]) * w * wt
                G, H = g * old[p][0] + D.T @ (fw[:, None] * D), g * old[p][1] + D.T @ (fw * z)
                self.coef[p] = np.linalg.solve(G, H)
                fv[:, p] = self.d.link_inverse(D @ self.coef[p], param=p)
                new[p] = (G, H)

        self._until(one)
        self.r = new


def case_conv(case, ctx):
    """Inner and outer iterations with tight tolerances reach the fixed point of the recursion."""
    _, name, forget, wp, seed = case
    P = len(BASE[name])
    n0, m = 40, 4
    X, y = make_data(name, n0 + m, 2, seed)
    if name == "JSU":
        return
    w = weights(wp, n0 + m)
    for inner, outer in ((30, 40), (1, 150)):
        for comp in compositions(m) if inner > 1 else ((1, 3), (4,)):
            parts = (n0,) + tuple(comp)
            eq = {p: "all" if p == 0 else "intercept" for p in range(P)}
            est = ODR(distribution=make_dist(name), equation=eq, forget=forget, method="ols", abs_tol_inner=1e-9, abs_tol_outer=1e-9, rel_tol_inner=1e-12, rel_tol_outer=1e-12,
                      max_it_outer=outer, max_it_inner=inner)
            ref = ConvRef(make_dist(name), 2, law=name, eq=eq, forget=forget)
            if not drive(ctx, est, ref, X, y, w, parts, wp != "none", f"{name} forget={forget} w={wp} inner={inner}", tol=2e-4):
                return


def points(name):
    """Tail quantiles, atoms and near-boundary values that the law does not exclude outright (log-density above -60)."""
    L, th = laws.LAWS[name], BASE[name]
    pts = [float(L.ppf(q, *th)) for q in (1e-4, 0.5, 1 - 1e-4)] + list(L.atoms)
    edge = ([1e-6] if L.lo == 0 else []) + ([1 - 1e-6] if L.hi == 1 else [])
    return pts + [e for e in edge if float(np.asarray(L.logpdf(np.array([e]), *th)).ravel()[0]) > -60]


def npoints(name):
    return len(points(name))


def case_support(case, ctx):
    """Boundary, atom and extreme responses at every position of a batch leave finite coefficients and correct counts."""
    _, name, k, seed = case
    P = len(BASE[name])
    n0 = 40
    X, y0 = make_data(name, n0 + 6, 2, seed)
    pt = points(name)[k]
    for forget in (0.0, 0.02):
        for comp, poss in (((1, 1, 1), (0, 2)), ((3,), (0, 1, 2)), ((2, 1), (1, 2))):
            for pos in poss:
                y = y0.copy()
                y[n0 + pos] = pt
                est = ODR(distribution=make_dist(name), equation={p: "all" if p == 0 else "intercept" for p in range(P)}, forget=forget, method="ols")
                tot = 0.0
                for i, s in enumerate(batches((n0,) + comp + (1,))):
                    w = weights("mixed", s.stop)[s]
                    with quiet():
                        (est.fit if i == 0 else est.update)(X[s], y[s], sample_weight=w)
                    tot += w.sum()
                    ctx.step()
                    if not all(np.all(np.isfinite(est.coef_[p])) for p in range(P)):
                        return ctx.fail("finite", f"{name}: y={pt!r} at position {pos} of {comp} (forget {forget}) gives coefficients {est.coef_}")
                    if not close_scaled(float(est.n_observations_), tot, 1e-9):
                        return ctx.fail("count", f"{name}: n_observations_ {est.n_observations_} expected {tot}")
                ctx.trace()
                ctx.state(name, pt, [est.coef_[p] for p in range(P)])
