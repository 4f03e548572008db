"""C02: all splits, weights and column selections of small histories of the online scaler."""
import itertools

import numpy as np

from ondil.scaler import OnlineScaler

from .util import batches, batches_ok, close_scaled, compositions, data_matrix, layout, maxdiff

FORGETS = [0.0, 0.01, 0.3, 0.8]
ASSUMPTIONS = [
    "float64 arithmetic compared with relative tolerance 1e-8",
    "columns with zero variance are outside the domain of transform (division by zero)",
]
CHUNK = 30


def BOUNDS(tier):
    n = 6 if tier == "quick" else 7
    return (
        f"histories of <= {n} rows, every composition with first batch >= 2 x forget {FORGETS} x weight alphabets {{1,2.5,0}}^N / None x 1..3 columns x every subset of columns as "
        "bool mask / int index (all orders) / True / False; large shapes product; offsets and scales 1e-3..1e4; units of X {1,1e-6,1e6} x location {0,30,-1e6} x weights {1,1e-9,1e-4,1e7} x forget {0,1e-6,1e-4,.01,.6,.95} x all compositions of 6 rows; partial_fit driving"
    )


def cases(tier):
    nmax = 6 if tier == "quick" else 7
    for n in range(2, nmax + 1):
        for j in (1, 2, 3):
            for forget in FORGETS:
                for variant in (0, 1, 2):
                    yield ("split", n, j, forget, variant)
    for j in (1, 2, 3, 4) if tier != "quick" else (1, 2, 3):
        for forget in FORGETS:
            yield ("select", j, forget)
    for forget in FORGETS:
        for j in (1, 2, 7, 20):
            yield ("big", j, forget)
        for off in (0.0, 10.0, -1000.0):
            for sc in (1e-3, 1.0, 1e4):
                yield ("scale", forget, off, sc)
        yield ("long", forget)
        yield ("containers", forget)
    for forget in (0.0, 1e-6, 1e-4, 0.01, 0.6, 0.95):
        for j in (1, 3):
            yield ("units", forget, j)


def ref_moments(X, w, forget):
    n = X.shape[0]
    f = np.array([(1.0 - forget) ** (n - 1 - i) for i in range(n)]) * w
    tot = f.sum()
    mean = (f[:, None] * X).sum(0) / tot
    var = (f[:, None] * (X - mean) ** 2).sum(0) / tot
    return mean, var


def sel_index(sel, j):
    if isinstance(sel, bool):
        return np.arange(j) if sel else np.arange(0)
    sel = np.asarray(sel)
    return np.flatnonzero(sel) if sel.dtype == bool else sel


def check_state(ctx, sc, X, w, forget, sel, tag, probe, tol=1e-8):
    j = X.shape[1]
    idx = sel_index(sel, j)
    do = not (isinstance(sel, bool) and not sel)
    ctx.step()
    if do:
        mean, var = ref_moments(X[:, idx], w, forget)
        scale_m = np.abs(X[:, idx]).max() if idx.size else 1.0
        if not close_scaled(np.asarray(sc.mean_), mean, tol, scale=scale_m):
            ctx.fail("mean:" + tag, f"diff {maxdiff(sc.mean_, mean)}")
            return False
        if not close_scaled(np.asarray(sc.var_), var, tol, scale=max(scale_m**2 * 1e-2, np.abs(var).max() if idx.size else 1)):
            ctx.fail("var:" + tag, f"diff {maxdiff(sc.var_, var)}")
            return False
        pos = var > 1e-10 * scale_m**2  # below, the variance is rounding noise
        if not close_scaled((np.asarray(sc.std_) ** 2)[pos], np.asarray(sc.var_)[pos], 1e-9):
            ctx.fail("std:" + tag, "std_ is not the root of var_")
            return False
        if not close_scaled(np.asarray(sc.n_observations_, dtype=float), w.sum(), 1e-9):
            ctx.fail("nobs:" + tag, f"{sc.n_observations_} vs {w.sum()}")
            return False
        ctx.state(mean, var)
        ctx.outcome(var)
        if idx.size and var.min() <= 1e-8 * max(1.0, scale_m**2):
            return True
    P = probe
    Pc = P.copy()
    T = sc.transform(P)
    expect = P.astype(float).copy()
    if do and idx.size:
        expect[:, idx] = (P[:, idx] - mean) / np.sqrt(var)
    sel_scale = np.abs(expect).max() + 1
    if not close_scaled(T, expect, tol * 100, scale=sel_scale):
        ctx.fail("transform:" + tag, f"diff {maxdiff(T, expect)}")
        return False
    rest = np.setdiff1d(np.arange(j), idx)
    if not np.array_equal(np.asarray(T)[:, rest], P[:, rest]):
        ctx.fail("untouched:" + tag, "an unselected column changed")
        return False
    B = sc.inverse_transform(T)
    if not close_scaled(B, P, tol * 100, scale=np.abs(P).max() + 1):
        ctx.fail("inverse:" + tag, f"diff {maxdiff(B, P)}")
        return False
    I = sc.inverse_transform(P)
    expect = P.astype(float).copy()
    if do and idx.size:
        expect[:, idx] = P[:, idx] * np.sqrt(var) + mean
    if not close_scaled(I, expect, tol * 100, scale=np.abs(expect).max() + 1):
        ctx.fail("inverse2:" + tag, f"diff {maxdiff(I, expect)}")
        return False
    if not np.array_equal(P, Pc):
        ctx.fail("mutates:" + tag, "transform modified its input")
        return False
    if do and idx.size:  # rows far from everything seen so far
        far = np.array([20.0, -20.0, 1e3, -1e3, 1e6])
        F = np.zeros((5, j))
        F[:, idx] = mean + far[:, None] * np.sqrt(var)
        T5 = np.asarray(sc.transform(F))
        if not np.all(np.abs(T5[:, idx] / far[:, None] - 1) <= 1e-6 * (1 + scale_m / np.sqrt(var))):
            ctx.fail("far:" + tag, f"rows {far} deviations away are transformed to {T5[:, idx].tolist()}")
            return False
        if not close_scaled(sc.inverse_transform(T5)[:, idx] / np.sqrt(var) / far[:, None], F[:, idx] / np.sqrt(var) / far[:, None], 1e-6, scale=1 + np.max(scale_m / np.sqrt(var))):
            ctx.fail("far:" + tag, "inverse_transform does not give far rows back")
            return False
    # one row at a time gives the same
    r = sc.transform(P[:1])
    if not close_scaled(r, np.asarray(T)[:1], 1e-9, scale=sel_scale):
        ctx.fail("rowwise:" + tag, "transform of a single row differs")
        return False
    return True


def play(ctx, X, w, forget, sel, parts, tag, weights_none=False, partial=False, tol=1e-8, every=True):
    sc = OnlineScaler(forget=forget, to_scale=sel)
    Xc, wc = X.copy(), w.copy()
    pos = 0
    probe = np.vstack([X[-1:] * 0.5 + 1.0, X[:1] - 2.0])
    for k, m in enumerate(parts):
        s = slice(pos, pos + m)
        sw = None if weights_none else w[s]
        if partial:
            sc.partial_fit(X[s], None, sample_weight=sw)
        elif k == 0:
            sc.fit(X[s], sample_weight=sw)
        else:
            sc.update(X[s], sample_weight=sw)
        pos += m
        if every or k == len(parts) - 1:
            if not check_state(ctx, sc, X[:pos], w[:pos], forget, sel, tag, probe, tol):
                return False
    if not (np.array_equal(X, Xc) and np.array_equal(w, wc)):
        ctx.fail("mutates-input:" + tag, "data modified")
    ctx.trace()
    return True


def run_case(case, ctx):
    kind = case[0]
    if kind == "split":
        _, n, j, forget, variant = case
        X = data_matrix(n, j, variant)
        vals = {0: (1.0,), 1: (1.0, 2.5), 2: (1.0, 0.0)}[variant]
        for parts in compositions(n):
            if parts[0] < 2:
                continue
            for w in itertools.product(vals, repeat=n):
                w = np.array(w)
                if not batches_ok(w, parts):
                    continue
                if not play(ctx, X, w, forget, True, parts, f"split:{variant}", weights_none=(variant == 0)):
                    return
                if variant == 1:
                    if not play(ctx, X, w, forget, True, parts, f"split-partial:{variant}", partial=True, every=False):
                        return
    elif kind == "select":
        _, j, forget = case
        sels = [True, False]
        for r in range(0, j + 1):
            for c in itertools.combinations(range(j), r):
                mask = np.zeros(j, dtype=bool)
                mask[list(c)] = True
                sels.append(mask)
                for perm in itertools.permutations(c):
                    if perm:
                        sels.append(np.array(perm))
                        sels.append(np.array(perm) - j)  # negative indices name the same columns
        X = data_matrix(6, j, 1)
        w = np.array([1.0, 2.0, 0.5, 3.0, 0.0, 1.5])
        for sel in sels:
            if not isinstance(sel, bool) and sel_index(sel, j).size == 0:
                continue
            for parts in ((6,), (2, 4), (3, 1, 2), (2, 1, 1, 2), (4, 2)):
                ctx.outcome(str(sel))
                if isinstance(sel, np.ndarray) and sel.dtype != bool and (sel < 0).any():
                    s2 = np.mod(sel, j)
                    a = OnlineScaler(forget=forget, to_scale=sel).fit(X[: parts[0]], sample_weight=w[: parts[0]])
                    b = OnlineScaler(forget=forget, to_scale=s2).fit(X[: parts[0]], sample_weight=w[: parts[0]])
                    if not close_scaled(a.transform(X), b.transform(X)):
                        ctx.fail("negative-index", f"{sel} vs {s2}")
                        return
                    ctx.trace()
                    continue
                if not play(ctx, X, w, forget, sel, parts, f"select:{'bool' if isinstance(sel, bool) else sel.dtype.kind}"):
                    ctx.violations[-1]["msg"] += f" sel={sel} parts={parts}"
                    return
    elif kind == "big":
        _, j, forget = case
        for s1 in (2, 3, 17, 64, 129, 500):
            for s2 in (1, 2, 16, 33, 100, 257):
                for tail in ((), (1,), (3, 40)):
                    parts = (s1, s2) + tail
                    n = sum(parts)
                    X = data_matrix(n, j, 1)
                    w = 0.5 + (np.arange(n) * 3 % 4) / 2.0
                    if not play(ctx, X, w, forget, True, parts, "big", tol=1e-7, every=False):
                        ctx.violations[-1]["msg"] += f" parts={parts}"
                        return
    elif kind == "scale":
        _, forget, off, scl = case
        X = data_matrix(8, 2) * scl + off
        w = np.array([1.0, 2.0, 0.5, 1.0, 4.0, 1.0, 0.25, 2.0])
        for parts in compositions(6):
            play(ctx, X, w, forget, True, (2 + parts[0],) + parts[1:], "scale", tol=1e-7 if abs(off) <= 10 * scl else 1e-4)
    elif kind == "units":
        # magnitudes of data and weights, purely relative comparison; a location of 1e6 standard deviations keeps its variance
        _, forget, j = case
        base = data_matrix(8, j, 0)
        base[1] += np.where(np.abs(base[1] - base[0]) < 0.5, 1.0, 0.0)  # no column constant in the first rows
        for xs, off, ws in itertools.product((1.0, 1e-6, 1e6), (0.0, 30.0, -1e6), (1.0, 1e-9, 1e-4, 1e7)):
            X = (base + off) * xs
            for pat in ((1.0, 2.5, 0.5, 1.5, 3.0, 1.0, 0.0, 1.0), (1.0, 1.0, 1e-3, 1.0, 1e-3, 1e-3, 2.0, 1e-3), (1.0, 3.0, 1.0, 200.0, 2.0, 1.0, 50.0, 1.0)):
                w = np.array(pat) * ws
                for tail in compositions(6):
                    parts = (2,) + tail if len(tail) % 2 else (2 + tail[0],) + tail[1:]
                    if not batches_ok(w, parts):
                        continue
                    sc = OnlineScaler(forget=forget)
                    for k, s in enumerate(batches(parts)):
                        (sc.fit if k == 0 else sc.update)(X[s], sample_weight=w[s])
                        mean, var = ref_moments(X[: s.stop] / xs - off, w[: s.stop], forget)
                        mean, var, ctx_std = (mean + off) * xs, var * xs**2, np.sqrt(var) * xs
                        ctx.step()
                        tag = f"x{xs}:off{off}:w{ws}"
                        if not np.all(np.abs(sc.mean_ - mean) <= 1e-9 * ctx_std.max() + 1e-13 * np.abs(mean)):
                            return ctx.fail("mean:" + tag, f"{sc.mean_} expected {mean}: forget {forget}, weights {w}, parts {parts}, step {k}")
                        if not np.all(np.abs(sc.var_ - var) <= 1e-5 * var + 1e-8 * var.max()):
                            return ctx.fail("var:" + tag, f"{sc.var_} expected {var}: forget {forget}, weights {w}, parts {parts}, step {k}")
                        if not np.all(np.abs(sc.std_ - ctx_std) <= 1e-5 * ctx_std):
                            return ctx.fail("std:" + tag, f"{sc.std_} expected {ctx_std}: forget {forget}, weights {w}, parts {parts}, step {k}")
                        if not abs(float(sc.n_observations_) - w[: s.stop].sum()) <= 1e-9 * w[: s.stop].sum():
                            return ctx.fail("nobs:" + tag, f"{sc.n_observations_}")
                    Z = (X[-2:] - mean) / ctx_std
                    T = sc.transform(X[-2:])
                    if not np.all(np.abs(T - Z) <= 1e-4 * (1 + np.abs(Z))):
                        return ctx.fail("transform:" + tag, f"{T} expected {Z}")
                    if not np.all(np.abs(sc.inverse_transform(T) - X[-2:]) <= 1e-9 * ctx_std + 1e-12 * np.abs(X[-2:])):
                        return ctx.fail("inverse:" + tag, f"{sc.inverse_transform(T)} expected {X[-2:]}")
                    ctx.trace()
                    ctx.state(forget, xs, off, ws, pat, parts)
    elif kind == "long":
        _, forget = case
        n = 600
        X = data_matrix(n, 3, 1)
        w = 0.5 + (np.arange(n) * 3 % 4) / 2.0
        play(ctx, X, w, forget, True, (5,) + (1,) * (n - 5), "long", tol=1e-7, every=False)
        play(ctx, X, w, forget, np.array([2, 0]), (50,) + (11, 1, 10) * 25, "long", tol=1e-7, every=False)
        play(ctx, X, w, forget, np.array([False, True, True]), (50,) + (1,) * 200, "long", tol=1e-7, every=False)
    elif kind == "containers":
        _, forget = case
        import pandas as pd

        X = data_matrix(9, 3, 1)
        w = np.array([1.0, 2, 1, 1, 3, 1, 1, 2, 1])
        base = OnlineScaler(forget=forget, to_scale=np.array([0, 2])).fit(X[:5], sample_weight=w[:5])
        base.update(X[5:], sample_weight=w[5:])
        T = base.transform(X)
        variants = {
            "F": lambda A: layout(A, "F"),
            "strided": lambda A: layout(A, "strided"),
            "pandas": lambda A: pd.DataFrame(A, columns=["a", "b", "c"]),
            "list": lambda A: A.tolist(),
        }
        for name, conv in variants.items():
            s = OnlineScaler(forget=forget, to_scale=np.array([0, 2])).fit(conv(X[:5]), sample_weight=w[:5])
            s.update(conv(X[5:]), sample_weight=w[5:])
            ctx.step(2)
            ctx.trace()
            if not (close_scaled(s.mean_, base.mean_) and close_scaled(s.var_, base.var_) and close_scaled(np.asarray(s.transform(conv(X))), T)):
                ctx.fail("container:" + name, "moments differ")
        # transform must hand out data the caller can modify without affecting later results
        s = OnlineScaler(forget=forget, to_scale=True).fit(X)
        a = s.transform(X)
        a[:] = 0.0
        if not close_scaled(s.transform(X), OnlineScaler(forget=forget).fit(X).transform(X)):
            ctx.fail("alias", "modifying the output changed later results")
