"""C14: every pair of equivalent configurations and data containers, over fit/update histories."""
import itertools

import numpy as np
import pandas as pd
import polars as pl

import ondil.distributions as D
from ondil import OnlineScaler
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

from . import gamdata, laws
from . import subjects as sb
from .gamdata import make_data, make_dist
from .subjects import SUBJECTS, call, diff, observe
from .util import layout

ASSUMPTIONS = [
    "single-precision inputs are compared at 2e-3 (the computation may run in single precision); all other pairs at 1e-7",
    "the scaler of the distributional model follows the first parameter's forget factor, so that option is varied with unscaled inputs when other parameters are compared",
]
CHUNK = 1
DISTS = ("Exponential", "Normal", "Gamma", "ZeroAdjustedGamma", "BetaInflated")
NAMES = ["a", "b", "c"]
FRAMES = {"numpy": lambda a, i: a, "pandas": lambda a, i: pd.DataFrame(a, columns=NAMES), "polars": lambda a, i: pl.DataFrame(a, schema=NAMES)}
KW = dict(max_it_outer=3, max_it_inner=2)


def BOUNDS(tier):
    return (
        "distributions with 1-4 parameters x {forget, method, fit_intercept, regularize_intercept, ic, step_size, equation}: scalar, full dictionary in every key order, all partial dictionaries with default values; 12 ways to name each of 5 column "
        "subsets; unused columns replaced, constant, dropped; one-parameter option changes in first iterations; 14 containers for X, y and weights in every fit/update combination; all debug/verbose levels; method names and objects"
    )


def cases(tier):
    lin = [n for n in SUBJECTS if SUBJECTS[n].kind == "lin"]
    ols = [n for n in lin if n in ("lin_ols", "lin_str")]
    yield ("contain", ",".join(n for n in lin if n not in ols), tier)  # grouped: they share compiled code
    yield ("contain", ",".join(ols), tier)
    yield ("contain", "gam_noint", tier)
    for name in SUBJECTS:
        if name not in lin:
            yield ("contain", name, tier)
    for d in reversed(DISTS):
        for opt in ("forget", "method", "fit_intercept", "regularize_intercept", "ic", "step_size"):
            yield ("dict", d, opt)
        for k in range(5 if d in ("Normal", "Exponential") else 3):
            yield ("eq", d, k)
        yield ("eqorder", d)
        yield ("unused", d)
        yield ("debug", d)
    for d in ("Normal", "Gamma", "StudentT", "BetaInflated"):
        yield ("own", d)
    yield ("lin", 0)
    yield ("names", 0)
    yield ("default_eq", 0)


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def history(est, X, y, w=None, parts=(26, 1, 3), probe=None, wrapX=lambda a, i: a, wrapy=lambda a, i: a, wrapw=lambda a, i: a):
    out, pos = [], 0
    for i, m in enumerate(parts):
        s = slice(pos, pos + m)
        call(est, "fit" if i == 0 else "update", wrapX(X[s], i), wrapy(y[s], i), None if w is None else wrapw(w[s], i))
        out.append(observe(est, wrapX(probe, i)))
        pos += m
    return out


def compare(ctx, tag, a, b, tol=1e-7):
    for i, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y, tol)
        if d:
            ctx.fail("differs", f"{tag}: after call {i}: {d}")
            return False
    ctx.step(len(a))
    ctx.trace()
    ctx.state(tag)
    return True


VALUES = {
    "forget": (0.0, 0.03, 0.2), "method": ("ols", "lasso", "elasticnet"), "fit_intercept": (True, False), "regularize_intercept": (False, True), "ic": ("aic", "bic", "hqc", "max"), "step_size": (1.0, 0.5),
}
DEFAULT = {"forget": 0.0, "method": "ols", "fit_intercept": True, "regularize_intercept": False, "ic": "aic", "step_size": 1.0}


def case_dict(case, ctx):
    _, d, opt = case
    P = len(gamdata.BASE[d])
    X, y = make_data(d, 30, 3, 1)
    probe = X[:3] * 0.6
    w = np.array([1.0, 2.0, 0.5])[np.arange(30) % 3]
    eq = {p: "all" if p < 2 else np.array([0]) for p in range(P)}

    def run(value, **more):
        kw = dict(KW)
        if opt in ("regularize_intercept", "ic"):
            kw["method"] = LassoPath(lambda_n=8)
        kw.update(more)
        kw[opt] = value
        return history(ODR(distribution=make_dist(d), equation=dict(eq), **kw), X, y, w, probe=probe)

    for v in VALUES[opt] if P < 4 else VALUES[opt][:2]:
        base = run(v)
        perms = list(itertools.permutations(range(P)))[:6]
        for perm in perms:
            if not compare(ctx, f"{d}: {opt}={v!r} vs dictionary with keys in order {perm}", run({p: v for p in perm}), base):
                return
        # every partial dictionary means the default for the missing parameters
        for subset in itertools.product((0, 1), repeat=P):
            if all(subset):
                continue
            partial = {p: v for p in range(P) if subset[p]}
            full = {p: (v if subset[p] else DEFAULT[opt]) for p in range(P)}
            if not compare(ctx, f"{d}: {opt}={partial} vs {full}", run(partial), run(full)):
                return
    # distinct values per parameter, any key order
    vs = VALUES[opt]
    full = {p: vs[p % len(vs)] for p in range(P)}
    base = run(full)
    for perm in list(itertools.permutations(range(P))):
        if not compare(ctx, f"{d}: {opt}={full} with keys in order {perm}", run({p: full[p] for p in perm}), base):
            return


def forms(idx, J, names):
    """All spellings of one column subset (in ascending order)."""
    mask = np.zeros(J, dtype=bool)
    mask[list(idx)] = True
    out = {"int64": np.array(idx, dtype=np.int64), "int32": np.array(idx, dtype=np.int32), "uint8": np.array(idx, dtype=np.uint8), "uint64": np.array(idx, dtype=np.uint64), "mask": mask, "names": [names[i] for i in idx]}
    if len(idx) == J:
        out["all"] = "all"
    return out


def case_eq(case, ctx):
    _, d, k = case
    P = len(gamdata.BASE[d])
    X, y = make_data(d, 30, 3, 1)
    names = NAMES
    probe = X[:3] * 0.6
    frames = FRAMES
    full = d in ("Normal", "Exponential")
    for idx in (((0, 1, 2), (0, 2), (1,), (0, 1), (2,))[k],):
        for si, scale in enumerate((True, np.array([True, False, True]))):
            for mi, method in enumerate(("ols", LassoPath(lambda_n=6))):
                if not full and (si != mi or (d == "BetaInflated" and mi)):
                    continue
                base = None
                for fk, wrap in frames.items():
                    for sp, e in forms(idx, 3, names).items():
                        if sp == "names" and fk == "numpy" or sp.startswith("uint") and (fk != "numpy" or not full and sp == "uint64"):
                            continue
                        for which in ("first", "all", "last"):
                            eq = {p: "intercept" for p in range(P)}
                            ref = {p: "intercept" for p in range(P)}
                            for p in {"first": [0], "all": range(P), "last": [P - 1]}[which]:
                                eq[p], ref[p] = e, np.array(idx)
                            if which != "first" and P == 1:
                                continue
                            est = ODR(distribution=make_dist(d), equation=eq, scale_inputs=scale, method=method, **KW)
                            key = which
                            if base is None:
                                base = {}
                            if key not in base:
                                base[key] = history(ODR(distribution=make_dist(d), equation=ref, scale_inputs=scale, method=method, **KW), X, y, probe=probe)
                            if not compare(ctx, f"{d}: columns {idx} as {sp} in {fk} for {which} (scale {scale}, {method})", history(est, X, y, probe=probe, wrapX=wrap), base[key]):
                                return


def case_eqorder(case, ctx):
    """Permuted index and names keep the given order; dictionary order does not matter."""
    _, d = case
    P = len(gamdata.BASE[d])
    X, y = make_data(d, 30, 3, 1)
    names, frames, probe = NAMES, FRAMES, X[:3] * 0.6
    for order in itertools.permutations(range(3)):
        a = ODR(distribution=make_dist(d), equation={p: (np.array(order) if p == 0 else "intercept") for p in range(P)}, **KW)
        b = ODR(distribution=make_dist(d), equation={p: ([names[i] for i in order] if p == 0 else "intercept") for p in reversed(range(P))}, **KW)
        ha, hb = history(a, X, y, probe=probe), history(b, X, y, probe=probe, wrapX=frames["pandas"])
        if not compare(ctx, f"{d}: ordered columns {order}", hb, ha):
            return
        c = ODR(distribution=make_dist(d), equation={p: ("all" if p == 0 else "intercept") for p in range(P)}, **KW)
        hc = history(c, X, y, probe=probe)
        for i in range(3):
            if not np.allclose(np.concatenate([ha[i]["c0"][:1], ha[i]["c0"][1:][np.argsort(order)]]), hc[i]["c0"], rtol=1e-6, atol=1e-7):
                return ctx.fail("order", f"{d}: columns {order}: coefficients {ha[i]['c0']} vs {hc[i]['c0']}")
            if not np.allclose(ha[i]["t"], hc[i]["t"], rtol=1e-6, atol=1e-7):
                return ctx.fail("order", f"{d}: columns {order}: predictions differ after call {i}")


def case_unused(case, ctx):
    _, d = case
    P = len(gamdata.BASE[d])
    X, y = make_data(d, 30, 3, 1)
    probe = X[:3] * 0.6
    for used in ((0, 2), (1,), (2,)):
        for scale in (True, False):
            for method in ("ols", LassoPath(lambda_n=6)):
                eqs = {p: np.array(used) if p in (0, P - 1) else "intercept" for p in range(P)}
                base = history(ODR(distribution=make_dist(d), equation=dict(eqs), scale_inputs=scale, method=method, **KW), X, y, probe=probe)
                free = [j for j in range(3) if j not in used]
                for how in ("other", "huge", "constant", "zero"):
                    Z, q = X.copy(), probe.copy()
                    for j in free:
                        Z[:, j] = {"other": np.cos(3 * np.arange(30) + j), "huge": 1e6 * X[:, j] + 1e7, "constant": 3.5, "zero": 0.0}[how]
                        q[:, j] = {"other": 0.3, "huge": 1e7, "constant": 3.5, "zero": 0.0}[how]
                    got = history(ODR(distribution=make_dist(d), equation=dict(eqs), scale_inputs=scale, method=method, **KW), Z, y, probe=q)
                    if not compare(ctx, f"{d}: unused columns {free} {how} (scale {scale}, {method})", got, base):
                        return
                # dropping the unused columns
                re = {p: (np.arange(len(used)) if not isinstance(e, str) else e) for p, e in eqs.items()}
                got = history(ODR(distribution=make_dist(d), equation=re, scale_inputs=scale, method=method, **KW), X[:, used], y, probe=probe[:, used])
                if not compare(ctx, f"{d}: unused columns {free} dropped (scale {scale}, {method})", got, base):
                    return


def case_own(case, ctx):
    """In the first iteration an option of one parameter leaves the parameters estimated before it unchanged; and it is the option that acts."""
    _, d = case
    P = len(gamdata.BASE[d])
    X, y = make_data(d, 30, 3, 1)
    alts = {
        "forget": 0.1, "method": LassoPath(lambda_n=5), "fit_intercept": False, "regularize_intercept": True, "ic": "bic", "step_size": 0.3, "equation": np.array([1]),
    }
    base_kw = dict(max_it_outer=1, max_it_inner=1, scale_inputs=False)
    for method in ("ols", LassoPath(lambda_n=8)):
        for order in itertools.permutations(range(P)):
            def run(opt=None, p=None, val=None):
                kw = dict(base_kw, method={q: method for q in range(P)}, equation={q: "all" for q in range(P)}, param_order=np.array(order))
                if opt == "method":
                    kw["method"] = {**kw["method"], p: val}
                elif opt == "equation":
                    kw["equation"] = {**kw["equation"], p: val}
                elif opt:
                    kw[opt] = {q: DEFAULT[opt] for q in range(P)}
                    kw[opt][p] = val
                est = ODR(distribution=make_dist(d), **kw)
                call(est, "fit", X, y)
                return est

            ref = run()
            for opt, val in alts.items():
                for p in range(P):
                    est = run(opt, p, val)
                    ctx.step()
                    # the step size moves the predictor, not the coefficients of its own step
                    for q in order[: list(order).index(p) + (opt == "step_size")]:
                        if not np.allclose(est.coef_[q], ref.coef_[q], rtol=1e-9, atol=1e-12):
                            return ctx.fail("own", f"{d}: {opt} of parameter {p} changed parameter {q} in the first iteration (order {order}): {est.coef_[q]} vs {ref.coef_[q]}")
                    if opt == "forget":
                        for q in range(P):
                            n = (1 - 0.9**30) / 0.1 if q == p else 30
                            if not abs(est.n_training_[q] - n) <= 1e-9:
                                return ctx.fail("own", f"{d}: forget of parameter {p}: n_training_[{q}] = {est.n_training_[q]}")
                    if opt in ("fit_intercept", "equation"):
                        for q in range(P):
                            want = 4 if q != p else (3 if opt == "fit_intercept" else 2)
                            if len(est.coef_[q]) != want:
                                return ctx.fail("own", f"{d}: {opt} of parameter {p}: parameter {q} has {len(est.coef_[q])} coefficients")
                    if opt == "method":
                        for q in range(P):
                            path = est.coef_path_[q]
                            want = None if (q != p and method == "ols") else (5 if q == p else 8)
                            if (None if path is None else len(path)) != want:
                                return ctx.fail("own", f"{d}: method of parameter {p}: parameter {q} has a path of {None if path is None else len(path)}, expected {want}")
                    ctx.state(d, str(method), order, opt, p)
            ctx.trace()


def case_debug(case, ctx):
    _, d = case
    P = len(gamdata.BASE[d])
    X, y = make_data(d, 30, 3, 1)
    probe = X[:3] * 0.6
    for method in ("ols", LassoPath(lambda_n=6), Ridge(lambda_reg=0.5)):
        for sel in ("local_rss", "global_ll"):
            kw = dict(KW, method=method, model_selection=sel, equation={p: "all" for p in range(P)}, forget=0.02)
            base = history(ODR(distribution=make_dist(d), **kw), X, y, probe=probe)
            for debug in (False, True):
                for verbose in (0, 1, 2, 3):
                    got = history(ODR(distribution=make_dist(d), debug=debug, verbose=verbose, **kw), X, y, probe=probe)
                    if not compare(ctx, f"{d}: debug={debug} verbose={verbose} ({method}, {sel})", got, base, 1e-12):
                        return


XC = {
    "numpy": lambda a: a, "F": lambda a: layout(a, "F"), "strided": lambda a: layout(a, "strided"), "pandas": lambda a: pd.DataFrame(a, columns=NAMES), "polars": lambda a: pl.DataFrame(a, schema=NAMES), "list": lambda a: a.tolist(),
    "object": lambda a: a.astype(object), "float32": lambda a: a.astype(np.float32), "longdouble": lambda a: a.astype(np.longdouble), "reversed": lambda a: a[::-1].copy()[::-1], "matrix_T": lambda a: np.ascontiguousarray(a.T).T,
}
YC = {
    "numpy": lambda a: a, "strided": lambda a: layout(a, "strided"), "series": lambda a: pd.Series(a), "indexed": lambda a: pd.Series(a, index=np.arange(len(a))[::-1]), "polars": lambda a: pl.Series("y", a), "list": lambda a: a.tolist(),
    "column": lambda a: a[:, None], "float32": lambda a: a.astype(np.float32), "reversed": lambda a: a[::-1].copy()[::-1],
}
WC = {"numpy": lambda a: a, "list": lambda a: a.tolist(), "series": lambda a: pd.Series(a), "int": lambda a: a.astype(int), "float32": lambda a: a.astype(np.float32), "strided": lambda a: layout(a, "strided")}


NOINT = sb._gam("gam_noint", "Normal", lambda: {}, lambda c, f=0.0: ODR(equation={0: "all", 1: "intercept"}, fit_intercept={0: False, 1: True}, forget=f, **KW))


def case_contain(case, ctx):
    for name in case[1].split(","):
        contain(name, NOINT if name == "gam_noint" else SUBJECTS[name], case[2], ctx)


def contain(name, S, tier, ctx):
    n0 = S.n0
    X, y = S.data(n0 + 4, 1)
    X = np.round(X * 8) / 8  # exact in single precision
    y = y.astype(np.float32).astype(float)
    w = np.array([1.0, 2.0, 1.0])[np.arange(n0 + 4) % 3]
    parts = (n0, 1, 3)
    probe = np.round(S.data(4, 3)[0] * 4) / 4

    def run(cx=("numpy",) * 3, cy=("numpy",) * 3, cw=("numpy",) * 3, data=(X, y, w)):
        return history(S.make(S.cfg(), 0.02), *data, parts=parts, probe=probe, wrapX=lambda a, i: XC[cx[i]](a), wrapy=lambda a, i: YC[cy[i]](a), wrapw=lambda a, i: WC[cw[i]](a))

    base = run()
    single = 2e-3
    for c in XC:
        combos = [(c, c, c)]
        if c not in ("pandas", "polars"):
            combos += [(c, "numpy", "numpy"), ("numpy", c, c)] + ([("numpy", c, "numpy"), ("numpy", "numpy", c)] if tier == "thorough" else [])
        for cx in combos:
            if not compare(ctx, f"{name}: X as {cx}", run(cx=cx), base, single if "float32" in cx else 1e-7):
                return
    if S.kind != "scaler":
        for c in YC:
            for cy in ((c, c, c), ("numpy", c, c)):
                if not compare(ctx, f"{name}: y as {cy}", run(cy=cy), base, single if c == "float32" else 1e-7):
                    return
    for c in WC:
        for cw in ((c, c, c), ("numpy", c, c)):
            if not compare(ctx, f"{name}: weights as {cw}", run(cw=cw), base, single if c == "float32" else 1e-7):
                return
    # integer data
    XI = np.round(X * 3).astype(int)
    XI[:, 0] += np.arange(n0 + 4) % 5
    yi = np.round(y * 10).astype(int) if S.kind != "gam" or S.dist in ("Normal", "Logistic") else None
    ref = run(data=(XI.astype(float), y, w))
    for dt in ((np.int64, np.int32, np.int8) if tier == "thorough" else (np.int64, np.int8)):
        if not compare(ctx, f"{name}: integer X ({dt.__name__})", run(data=(XI.astype(dt), y, w)), ref):
            return
    if yi is not None and S.kind != "scaler":
        ref = run(data=(X, yi.astype(float), w))
        for dt in (np.int64, np.int32) if tier == "thorough" else (np.int64,):
            if not compare(ctx, f"{name}: integer y ({dt.__name__})", run(data=(X, yi.astype(dt), w)), ref):
                return


def case_lin(case, ctx):
    """Equivalent spellings for the linear models and the scaler."""
    X, y = sb.lin_data(16, 1)
    w = np.array([1.0, 2.0, 0.5])[np.arange(16) % 3]
    probe = X[:3] * 0.5
    hist = lambda e: history(e, X, y, w, parts=(12, 1, 3), probe=probe)  # noqa: E731
    groups = []
    for f in (0.0, 0.05):
        for fi in (True, False):
            for method in ("ols", "lasso", "elasticnet"):
                obj = {"ols": OrdinaryLeastSquares, "lasso": LassoPath, "elasticnet": lambda: ElasticNetPath(alpha=0.5)}[method]
                g = [("string", OnlineLinearModel(method=method, forget=f, fit_intercept=fi)), ("object", OnlineLinearModel(method=obj(), forget=f, fit_intercept=fi))]
                if method == "lasso":
                    g.append(("alpha=1", OnlineLinearModel(method=ElasticNetPath(alpha=1.0), forget=f, fit_intercept=fi)))
                    g.append(("OnlineLasso", OnlineLasso(forget=f, fit_intercept=fi)))
                    J = 3 + fi
                    g.append(("infinite bounds", OnlineLinearModel(method=LassoPath(beta_lower_bound=np.full(J, -np.inf), beta_upper_bound=np.full(J, np.inf)), forget=f, fit_intercept=fi)))
                groups.append(g)
            for sc in (((True, "True"), (np.array([True] * 3), "mask"), (np.arange(3), "index")), ((False, "False"), (np.zeros(3, dtype=bool), "empty mask")), ((np.array([True, False, True]), "mask"), (np.array([0, 2]), "index"), (np.array([2, 0]), "reordered index"))):
                for m in ("ols", LassoPath(lambda_n=6), Ridge(lambda_reg=0.4)):
                    groups.append([(tag, OnlineLinearModel(method=m, forget=f, fit_intercept=fi, scale_inputs=v)) for v, tag in sc])
        groups.append([(ic, OnlineLinearModel(method="ols", ic=ic, forget=f)) for ic in ("aic", "bic", "hqc", "max")])
        groups.append([("lasso ic=bic", OnlineLinearModel(method="lasso", forget=f)), ("given", OnlineLinearModel(method="lasso", ic="bic", forget=f))])
    for g in groups:
        base = hist(g[0][1])
        for tag, e in g[1:]:
            if not compare(ctx, f"{g[0][1]} vs {tag}", hist(e), base, 1e-7):
                return
    # the intercept as a column of ones
    for f in (0.0, 0.05):
        for sc in (True, False):
            a = OnlineLinearModel(method="ols", forget=f, scale_inputs=sc)
            sel = np.array([False, sc, sc, sc])
            b = OnlineLinearModel(method="ols", forget=f, fit_intercept=False, scale_inputs=sel)
            X1, p1 = np.column_stack([np.ones(16), X]), np.column_stack([np.ones(3), probe])
            if not compare(ctx, f"intercept as column of ones (forget {f}, scale {sc})", history(b, X1, y, w, parts=(12, 1, 3), probe=p1), hist(a), 1e-6):
                return


def case_names(case, ctx):
    """Method names and objects in the distributional regression."""
    X, y = make_data("Normal", 30, 3, 1)
    probe = X[:3] * 0.6
    for m, o in (("ols", OrdinaryLeastSquares), ("lasso", LassoPath), ("elasticnet", lambda: ElasticNetPath(alpha=0.5))):
        base = history(ODR(equation={0: "all", 1: "all"}, method=m, **KW), X, y, probe=probe)
        one = o()
        for tag, spec in (("object", o()), ("dict of names", {0: m, 1: m}), ("dict of objects", {0: o(), 1: o()}), ("one shared object", {0: one, 1: one}), ("mixed", {0: m, 1: o()})):
            if not compare(ctx, f"method {m} vs {tag}", history(ODR(equation={0: "all", 1: "all"}, method=spec, **KW), X, y, probe=probe), base, 1e-9):
                return


def case_default_eq(case, ctx):
    """No equation: all columns for the first parameter, intercepts for the rest; no order: the natural one; default distribution: normal."""
    for d in laws.LAWS:
        P = len(gamdata.BASE[d])
        X, y = make_data(d, 30, 3, 1)
        probe = X[:3] * 0.6
        base = history(ODR(distribution=make_dist(d), equation={p: "all" if p == 0 else "intercept" for p in range(P)}, **KW), X, y, probe=probe)
        variants = {"None": ODR(distribution=make_dist(d), **KW), "partial": ODR(distribution=make_dist(d), equation={0: "all"}, **KW),
                    "order": ODR(distribution=make_dist(d), equation={0: "all"}, param_order=np.arange(P), **KW)}
        if d == "Normal":
            variants["default distribution"] = ODR(**KW)
        for tag, e in variants.items():
            if not compare(ctx, f"{d}: equation {tag}", history(e, X, y, probe=probe), base, 1e-9):
                return
