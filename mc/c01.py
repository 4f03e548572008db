"""C01: every split of every small history, real Gram recursions against the batch definition."""
import itertools

import numpy as np

from ondil import gram as G
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

from .util import close_scaled, compositions, data_matrix, layout, maxdiff, raises

FORGETS = [0.0, 0.001, 0.05, 0.25, 0.5, 0.9]
WVALS = [1.0, 0.0, 2.5]
ASSUMPTIONS = ["float64 arithmetic compared with relative tolerance 1e-8 (1e-6 for inverses)"]
CHUNK = 40


def BOUNDS(tier):
    n = 5 if tier == "quick" else 7
    return (
        f"histories of <= {n} rows: all compositions into batches x all weight vectors over {WVALS} x forget in {FORGETS} x 1..3 columns x 3 designs; "
        "plus a complete product of batch sizes {1,2,3,16,17,64,65,128,257,1000} with 1,2,3,5,10,31 columns; memory layouts C/F/strided; scalar, default and array weights; float32; 400-step histories; units of X {1,1e-5,1e5} x y {1,1e-6,1e6} x weights {1,1e-9,1e-4,1e7} x forget {0,1e-6,1e-4,.002,.05,.7,.99} x all compositions"
    )


def cases(tier):
    # the expensive (JIT-compiling) cases first, for load balance
    for lay in ("C", "F", "strided"):
        yield ("layout", lay)
    yield ("scalar",)
    yield ("f32",)
    nmax = 5 if tier == "quick" else 6
    for n in range(2, nmax + 1):
        for j in (1, 2, 3):
            for variant in ((0, 1, 2) if tier != "quick" or n < 5 else (0, 1)):
                for forget in FORGETS:
                    yield ("small", n, j, variant, forget)
    if tier != "quick":
        for forget in FORGETS:
            for j in (1, 2):
                yield ("small", 7, j, 0, forget)
    sizes = [1, 2, 3, 16, 17, 64, 65, 128, 257, 1000]
    for j in (1, 2, 3, 5, 10, 31):
        for forget in (0.0, 0.003, 0.2):
            for s1 in sizes:
                yield ("big", j, forget, s1)
    for forget in FORGETS:
        for scale in (1.0, 1e6, 1e-6):
            yield ("long", forget, scale)
    for forget in (0.0, 1e-6, 1e-4, 0.002, 0.05, 0.7, 0.99):
        for j in (1, 2, 3):
            yield ("scales", forget, j)
    for forget in FORGETS:
        yield ("methods", forget)
    yield ("vector",)
    yield ("singular",)


def warmup():
    X = data_matrix(4, 2)
    y = X[:, 0] * 1.0
    w = np.ones(4)
    g = G.init_gram(X, w, 0.1)
    h = G.init_y_gram(X, y, w, 0.1)
    i = G.init_inverted_gram(X, w, 0.1)
    for m in (1, 2):
        G.update_gram(g, X[:m], 0.1, w[:m])
        G.update_y_gram(h, X[:m], y[:m], 0.1, w[:m])
        G.update_inverted_gram(i, X[:m], 0.1, w[:m])


def ref(X, y, w, forget):
    n = X.shape[0]
    f = np.array([(1.0 - forget) ** (n - 1 - i) for i in range(n)])
    wf = w * f
    gx = np.zeros((X.shape[1], X.shape[1]))
    gy = np.zeros((X.shape[1], 1))
    for r in range(n):
        gx += wf[r] * np.outer(X[r], X[r])
        gy[:, 0] += wf[r] * X[r] * y[r]
    return gx, gy


def ref_fast(X, y, w, forget):
    n = X.shape[0]
    f = (1.0 - forget) ** np.arange(n - 1, -1, -1, dtype=float)
    wf = (w * f)[:, None]
    return X.T @ (wf * X), X.T @ (wf * y[:, None])


def well_conditioned(gx):
    s = np.linalg.svd(gx, compute_uv=False)
    return s[-1] > 1e-4 * s[0] and s[0] > 0


class Frozen:
    """Detect in-place modification of inputs."""

    def __init__(self, *arrs):
        self.arrs = arrs
        self.copies = [np.array(a, copy=True) for a in arrs]

    def intact(self):
        return all(np.array_equal(a, c) for a, c in zip(self.arrs, self.copies))


def play(ctx, X, y, w, forget, parts, tag, tol=1e-8, do_inv=True, sig=None, reff=ref):
    """Run one history on the implementation; compare after every step."""
    sig = sig or tag
    pos = parts[0]
    a, b, c = X[:pos], y[:pos], w[:pos]
    fz = Frozen(X, y, w)
    gx = G.init_gram(a, c, forget)
    gy = G.init_y_gram(a, b, c, forget)
    gi = None
    rx, ry = reff(a, b, c, forget)
    if do_inv and well_conditioned(rx):
        gi = G.init_inverted_gram(a, c, forget)
    ctx.step(3)
    for k in range(len(parts)):
        if k > 0:
            m = parts[k]
            a, b, c = X[pos : pos + m], y[pos : pos + m], w[pos : pos + m]
            olds = Frozen(gx, gy) if gi is None else Frozen(gx, gy, gi)
            ngx = G.update_gram(gx, a, forget, c)
            ngy = G.update_y_gram(gy, a, b, forget, c)
            ngi = G.update_inverted_gram(gi, a, forget, c) if gi is not None else None
            if not olds.intact():
                ctx.fail("mutates-state:" + sig, f"update modified the previous matrix in place, parts={parts}")
                return
            gx, gy, gi = ngx, ngy, ngi
            pos += m
            ctx.step(3)
            rx, ry = reff(X[:pos], y[:pos], w[:pos], forget)
        if gx.shape != rx.shape or gy.shape != ry.shape:
            ctx.fail("shape:" + sig, f"{gx.shape} {gy.shape}")
            return
        if not close_scaled(gx, rx, tol):
            ctx.fail("gram:" + sig, f"{tag} parts={parts} w={w[:8]} step={k} diff={maxdiff(gx, rx)}")
            return
        if not close_scaled(gy, ry, tol, scale=max(np.abs(rx).max(), np.abs(ry).max())):
            ctx.fail("ygram:" + sig, f"{tag} parts={parts} w={w[:8]} step={k} diff={maxdiff(gy, ry)}")
            return
        if gi is not None:
            if well_conditioned(rx):
                ri = np.linalg.inv(rx)
                if not close_scaled(gi, ri, max(tol * 100, 1e-7)):
                    ctx.fail("inv:" + sig, f"{tag} parts={parts} w={w[:8]} step={k} diff={maxdiff(gi, ri)}")
                    return
            else:
                gi = None
        ctx.state(tag, gx)
    if not fz.intact():
        ctx.fail("mutates-input:" + sig, f"inputs modified, parts={parts}")
    ctx.trace()
    ctx.outcome(gx)


def play_scaled(ctx, X, y, w, forget, parts, xs, ys, ws):
    sig = f"scales:x{xs}:y{ys}:w{ws}"
    pos = parts[0]
    rx, ry = ref(X[:pos], y[:pos], w[:pos], forget)
    gx = G.init_gram(X[:pos], w[:pos], forget)
    gy = G.init_y_gram(X[:pos], y[:pos], w[:pos], forget)
    gi = G.init_inverted_gram(X[:pos], w[:pos], forget) if well_conditioned(rx) else None
    for k in range(len(parts)):
        if k:
            m = parts[k]
            s = slice(pos, pos + m)
            gx = G.update_gram(gx, X[s], forget, w[s])
            gy = G.update_y_gram(gy, X[s], y[s], forget, w[s])
            gi = G.update_inverted_gram(gi, X[s], forget, w[s]) if gi is not None else None
            pos += m
            rx, ry = ref(X[:pos], y[:pos], w[:pos], forget)
        ctx.step(3)
        # in units of the data: a relative comparison without any absolute floor
        if not np.all(np.abs(gx - rx) <= 1e-8 * np.abs(rx).max()):
            return ctx.fail("gram:" + sig, f"parts={parts} w={w} forget={forget} step={k}: {gx} expected {rx}")
        if not np.all(np.abs(gy - ry) <= 1e-8 * max(np.abs(ry).max(), np.abs(rx).max() * ys / xs)):
            return ctx.fail("ygram:" + sig, f"parts={parts} w={w} forget={forget} step={k}: {gy} expected {ry}")
        if gi is not None:
            if not well_conditioned(rx):
                gi = None
            else:
                ri = np.linalg.inv(rx)
                if not np.all(np.abs(gi - ri) <= 1e-6 * np.abs(ri).max()):
                    return ctx.fail("inv:" + sig, f"parts={parts} w={w} forget={forget} step={k}: {gi} expected {ri}")
        ctx.state("scales", gx)
    ctx.trace()


def run_case(case, ctx):
    kind = case[0]
    if kind == "small":
        _, n, j, variant, forget = case
        X = data_matrix(n, j, variant)
        y = data_matrix(n, 1, variant + 3)[:, 0] + 0.5
        for parts in compositions(n):
            for w in itertools.product(WVALS, repeat=n):
                play(ctx, X, y, np.array(w), forget, parts, f"small:{n}:{j}")
                if ctx.violations:
                    return
    elif kind == "big":
        _, j, forget, s1 = case
        sizes = [1, 2, 3, 16, 17, 64, 65, 128, 257, 1000]
        for s2 in sizes:
            for tail in ((), (1,), (2, 1)):
                parts = (s1, s2) + tail
                n = sum(parts)
                X = data_matrix(n, j)
                y = data_matrix(n, 1, 5)[:, 0]
                w = 0.25 + (np.arange(n) * 7 % 5) / 2.0
                play(ctx, X, y, w, forget, parts, f"big:{j}:{s1}:{s2}", tol=1e-8, do_inv=s1 >= 2 * j, reff=ref_fast)
                if ctx.violations:
                    return
        X = data_matrix(s1, j)
        v = G.init_forget_vector(forget, s1)
        if not close_scaled(v, (1 - forget) ** np.arange(s1 - 1, -1, -1, dtype=float), 1e-9):
            ctx.fail("vector", f"forget={forget} size={s1}")
    elif kind == "long":
        _, forget, scale = case
        n = 400
        X = data_matrix(n, 3) * scale
        y = data_matrix(n, 1, 7)[:, 0]
        w = 0.5 + (np.arange(n) * 3 % 4) / 2.0
        # numerically the inverse recursion with very strong forgetting is only followed while well conditioned
        play(ctx, X, y, w, forget, (20,) + (1,) * (n - 20), "long", tol=1e-6, do_inv=forget <= 0.25, reff=ref_fast)
        play(ctx, X, y, w, forget, (10,) + (7, 1, 2) * 30, "long", tol=1e-6, do_inv=forget <= 0.25, reff=ref_fast)
    elif kind == "scales":
        # magnitudes: the same histories in other units of the data and of the weights, mixed magnitudes of the weights
        _, forget, j = case
        for xs, ys, ws in itertools.product((1.0, 1e-5, 1e5), (1.0, 1e-6, 1e6), (1.0, 1e-9, 1e-4, 1e7)):
            for pat in ((1.0, 2.5, 0.5, 1.5, 3.0, 1.0, 0.0, 1.0), (1.0, 1e-3, 1.0, 1e-3, 1e-3, 2.0, 1e-3, 1.0), (3.0, 1.0, 200.0, 2.0, 1.0, 1.0, 50.0, 1.0)):
                X = data_matrix(8, j, 1) * xs
                y = (data_matrix(8, 1, 4)[:, 0] + 0.5) * ys
                w = np.array(pat) * ws
                for tail in compositions(4):
                    for parts in ((4,) + tail, tail + (4,)):
                        play_scaled(ctx, X, y, w, forget, parts, xs, ys, ws)
                        if ctx.violations:
                            return
    elif kind == "layout":
        _, lay = case
        for parts, forget in itertools.product(compositions(5), FORGETS):
            for j in (1, 2, 3):
                X = layout(data_matrix(5, j), lay)
                y = layout(data_matrix(5, 1, 5)[:, 0], "strided" if lay == "strided" else "C")
                w = np.array([1.0, 2.0, 0.5, 1.5, 3.0])
                play(ctx, X, y, w, forget, parts, f"layout:{lay}")
    elif kind == "scalar":
        for j, forget in itertools.product((1, 2, 3), FORGETS):
            X = data_matrix(6, j)
            y = data_matrix(6, 1, 5)[:, 0]
            for s in (1.0, 2.5, 0.5, 1):
                for m in (1, 2, 3):
                    ww = np.full(6, float(s))
                    rx, ry = ref(X[:3], y[:3], ww[:3], forget)
                    if not well_conditioned(rx):
                        continue
                    ri = np.linalg.inv(rx)
                    ww[:3] = 1.0
                    rx, ry = ref(X[:3], y[:3], ww[:3], forget)
                    ri = np.linalg.inv(rx)
                    n = 3 + m
                    ex, ey = ref(X[:n], y[:n], ww[:n], forget)
                    ei = np.linalg.inv(ex)
                    variants = [(s,)] if s != 1 else [(s,), ()]
                    for args in variants:
                        if not close_scaled(G.update_gram(rx, X[3:n], forget, *args), ex):
                            ctx.fail("scalar-gram", f"m={m} s={s} j={j} forget={forget}")
                        if not close_scaled(G.update_y_gram(ry, X[3:n], y[3:n], forget, *args), ey):
                            ctx.fail("scalar-ygram", f"m={m} s={s} j={j} forget={forget}")
                        if not close_scaled(G.update_inverted_gram(ri, X[3:n], forget, *args), ei, 1e-6):
                            ctx.fail("scalar-inv", f"m={m} s={s} j={j} forget={forget}")
                        ctx.step(3)
                        ctx.trace()
            if forget == 0.0:
                # the forget factor defaults to none
                e0, h0 = ref(X, y, np.ones(6), 0.0)
                if not close_scaled(G.init_gram(X, np.ones(6)), e0) or not close_scaled(G.init_y_gram(X, y, np.ones(6)), h0):
                    ctx.fail("default-forget", f"j={j}")
                if not close_scaled(G.init_inverted_gram(X, np.ones(6)), np.linalg.inv(e0), 1e-7):
                    ctx.fail("default-forget-inv", f"j={j}")
    elif kind == "methods":
        _, forget = case
        meths = {"ols": OrdinaryLeastSquares(), "lasso": LassoPath(), "enet": ElasticNetPath(alpha=0.3), "ridge": Ridge()}
        for name, me in meths.items():
            for j in (1, 2, 3):
                for parts in compositions(4):
                    parts = (j + 2,) + parts
                    n = sum(parts)
                    X = data_matrix(n, j)
                    y = data_matrix(n, 1, 5)[:, 0]
                    w = 0.5 + np.arange(n) % 3
                    pos = parts[0]
                    gx = me.init_x_gram(X=X[:pos], weights=w[:pos], forget=forget)
                    gy = me.init_y_gram(X=X[:pos], y=y[:pos], weights=w[:pos], forget=forget)
                    for m in parts[1:]:
                        s = slice(pos, pos + m)
                        gx = me.update_x_gram(gram=gx, X=X[s], weights=w[s], forget=forget)
                        gy = me.update_y_gram(gram=gy, X=X[s], y=y[s], weights=w[s], forget=forget)
                        pos += m
                        ctx.step(2)
                    rx, ry = ref(X, y, w, forget)
                    if name == "ols":
                        ok = close_scaled(gx, np.linalg.inv(rx), 1e-6) if well_conditioned(rx) else True
                    else:
                        ok = close_scaled(gx, rx)
                    if not ok or not close_scaled(gy, ry, scale=np.abs(rx).max()):
                        ctx.fail("method:" + name, f"parts={parts} j={j} forget={forget}")
                    ctx.trace()
                    ctx.state(name, gx)
    elif kind == "f32":
        for parts, forget in itertools.product(compositions(5), FORGETS):
            X = data_matrix(5, 2)
            y = data_matrix(5, 1, 5)[:, 0]
            w = np.array([1.0, 2.0, 0.5, 1.5, 3.0])
            play(ctx, X.astype(np.float32), y.astype(np.float32), w, forget, parts, "f32", tol=2e-5, do_inv=False)
    elif kind == "vector":
        for forget in FORGETS + [0.1, 0.3, 0.7, 0.99, 1e-6]:
            for n in list(range(1, 60)) + [100, 255, 256, 257, 500, 1000, 1001, 4096]:
                v = G.init_forget_vector(forget, n)
                e = np.array([(1 - forget) ** (n - 1 - i) for i in range(n)])
                ctx.step()
                if v.shape != (n,) or not np.allclose(v, e, rtol=1e-9, atol=1e-12):
                    ctx.fail("vector", f"forget={forget} n={n}")
                    return
                ctx.state("v", forget, n)
            ctx.trace()
    elif kind == "singular":
        # rank-deficient designs are reported, never silently inverted
        for j in (2, 3):
            for n in range(1, j):
                for forget in FORGETS:
                    if not raises(ValueError, G.init_inverted_gram, data_matrix(n, j), np.ones(n), forget):
                        ctx.fail("singular", f"rows={n} cols={j}: no ValueError")
                    ctx.step()
            Xd = np.ones((5, j))
            Xd[:, 0] = np.arange(5)
            if j == 3 and not raises(ValueError, G.init_inverted_gram, Xd, np.ones(5), 0.0):
                ctx.fail("singular", "duplicate columns: no ValueError")
            wz = np.zeros(5)
            wz[0] = 1
            if not raises(ValueError, G.init_inverted_gram, data_matrix(5, j), wz, 0.0):
                ctx.fail("singular", "one positive weight: no ValueError")
        ctx.trace()
