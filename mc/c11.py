"""C11: all interleavings of estimators that share the user's objects; reads at every position; buffers and configuration untouched."""
import copy
import itertools

import numpy as np

from . import subjects as sb
from .subjects import SUBJECTS, call, diff, observe, read, same_snapshot, snapshot
from .util import layout

ASSUMPTIONS = [
    "single process, operations interleave at call boundaries (the estimators have no internal threads)",
    "cyclic coordinate selection (random selection is decided in C04)",
]
CHUNK = 1


def BOUNDS(tier):
    k = 3 if tier == "quick" else 4
    return (
        f"{len(SUBJECTS)} estimator configurations; all {20 if k == 3 else 70} interleavings of two {k}-step histories (different data, forget factors, also different estimator types) sharing one set of user objects; "
        "every read operation at every position of a fit/update/update history, with the returned arrays overwritten; buffer reuse, read-only arrays, configuration snapshots, histories repeated under different global random states"
    )


PAIRS = [("lin_ridge", "gam_ridge"), ("lin_lasso", "gam_lasso"), ("gam_lasso", "lin_lasso"), ("gam_default", "gam_cfg"), ("lin_enet", "lin_enet"), ("lasso_est", "lin_lasso")]


def cases(tier):
    k = 3 if tier == "quick" else 4
    for name in SUBJECTS:
        yield ("buffers", name)
    for name in SUBJECTS:
        yield ("inter", name, k)
        yield ("reads", name)
        yield ("repeat", name)
    for a, b in PAIRS:
        yield ("cross", a, b, k)
    yield ("params", 0)
    yield ("reuse_method", 0)


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def interleavings(a, b):
    for pos in itertools.combinations(range(a + b), a):
        yield tuple(0 if i in pos else 1 for i in range(a + b))


def program(S, seed, k, f, sizes):
    """The k calls of one history as (op, X, y, w)."""
    n = S.n0 + sum(sizes[: k - 1])
    X, y = S.data(n, seed)
    w = np.array([1.0, 2.0, 0.5])[np.arange(n) % 3]
    out, pos = [], 0
    for i, m in enumerate((S.n0,) + tuple(sizes[: k - 1])):
        s = slice(pos, pos + m)
        out.append(("fit" if i == 0 else ("update" if i % 2 else "partial_fit"), X[s].copy(), y[s].copy(), w[s].copy() if i != 1 else None))
        pos += m
    return out


def solo(S, prog, f, probe):
    est = S.make(S.cfg(), f)
    obs = []
    for op, X, y, w in prog:
        call(est, op, X.copy(), y.copy(), None if w is None else w.copy())
        obs.append(observe(est, probe))
    return obs


def interleaved(ctx, SA, SB, k, cfg_fn, tag):
    fa, fb = 0.0, 0.03
    PA, PB = program(SA, 1, k, fa, (1, 2, 1)), program(SB, 2, k, fb, (2, 1, 1))
    probe = SA.data(4, 3)[0] * 0.7
    want = (solo(SA, PA, fa, probe), solo(SB, PB, fb, probe))
    for sched in interleavings(k, k):
        cfgA, cfgB = cfg_fn()
        before = [snapshot(cfgA), snapshot(cfgB)]
        ests = (SA.make(cfgA, fa), SB.make(cfgB, fb))
        idx = [0, 0]
        for who in sched:
            op, X, y, w = (PA, PB)[who][idx[who]]
            call(ests[who], op, X, y, w)
            idx[who] += 1
            ctx.step()
            for z in (0, 1):
                if idx[z]:
                    d = diff(observe(ests[z], probe), want[z][idx[z] - 1])
                    if d:
                        return ctx.fail("interference", f"{tag} schedule {sched} after step {idx}: estimator {z} differs from running alone: {d}")
            ctx.state(tag, tuple(idx), sched[: sum(idx)])
        if not (same_snapshot(before[0], snapshot(cfgA)) and same_snapshot(before[1], snapshot(cfgB))):
            return ctx.fail("config", f"{tag} schedule {sched}: the user's configuration objects changed")
        ctx.trace()


def case_inter(case, ctx):
    _, name, k = case
    S = SUBJECTS[name]

    def shared():
        c = S.cfg()
        return c, c

    interleaved(ctx, S, S, k, shared, name)


def case_cross(case, ctx):
    """Different estimator types sharing the method object (and where possible the rest)."""
    _, a, b, k = case
    SA, SB = SUBJECTS[a], SUBJECTS[b]

    def shared():
        ca, cb = SA.cfg(), SB.cfg()
        for key in set(ca) & set(cb):
            if key == "m" and type(ca[key]) is type(cb[key]):
                if type(ca[key]).__name__ == "LassoPath" and ca[key].lambda_n != cb[key].lambda_n:
                    continue
                cb[key] = ca[key]
        if SA.kind == SB.kind == "gam" and SA.dist == SB.dist:
            for c in (ca, cb):
                if "d" in c:
                    c["d"] = (ca.get("d") or cb.get("d"))
        return ca, cb

    interleaved(ctx, SA, SB, k, shared, f"{a}|{b}")


def case_reads(case, ctx):
    """Any read, at any position, also with its result overwritten, leaves the later results unchanged; reads are repeatable."""
    _, name = case
    S = SUBJECTS[name]
    prog = program(S, 1, 3, 0.02, (2, 1))
    probe = S.data(4, 3)[0] * 0.7
    RX, ry = S.data(5, 4)
    ry = S.data(S.n0, 1)[1][:5]
    want = solo(S, prog, 0.02, probe)
    kinds = sb.READS[S.kind]
    plans = [((what, pos),) for what in kinds for pos in range(3)]
    plans.append(tuple((what, pos) for pos in range(3) for what in kinds))
    plans.append(tuple((what, pos) for pos in range(3) for what in reversed(kinds)))
    for plan in plans:
        for scribble in (False, True):
            est = S.make(S.cfg(), 0.02)
            for i, (op, X, y, w) in enumerate(prog):
                call(est, op, X, y, w)
                ctx.step()
                for what, pos in plan:
                    if pos != i:
                        continue
                    x, t = RX.copy(), ry.copy()
                    first = copy.deepcopy(read(est, what, x, t))
                    if not (np.array_equal(x, RX) and np.array_equal(t, ry)):
                        return ctx.fail("data", f"{name}: {what} modified its input")
                    if scribble:
                        read(est, what, x.copy(), t.copy(), scribble=True)
                    second = read(est, what, RX.copy(), ry.copy())
                    if not equal(first, second):
                        return ctx.fail("repeat", f"{name}: {what} repeated after call {i} gives {second} first {first}")
                    ctx.step()
                d = diff(observe(est, probe), want[i])
                if d:
                    return ctx.fail("read", f"{name}: reads {plan[:3]} (scribble={scribble}) changed the state after call {i}: {d}")
            ctx.trace()
            ctx.state(name, plan[:2], scribble)


def equal(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True))
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return abs(a - b) <= 1e-12 * max(1, abs(a)) or a != a
    return a == b if isinstance(a, (str, int, bool, type(None))) else True


def case_buffers(case, ctx):
    """Data arrays are never modified; the caller may reuse its buffers; read-only and strided inputs are fine."""
    _, name = case
    S = SUBJECTS[name]
    for sizes in ((1, 2, 1), (3, 3, 3), (1, 1, 1)):
        for f in (0.0, 0.05):
            prog = program(S, 1, 4, f, sizes)
            probe = S.data(4, 3)[0] * 0.7
            want = solo(S, prog, f, probe)
            for mode in ("reuse", "readonly", "F", "strided", "fill"):
                est = S.make(S.cfg(), f)
                big = max(len(p[2]) for p in prog)
                bX, by, bw = np.empty((big, sb.J)), np.empty(big), np.empty(big)
                for i, (op, X, y, w) in enumerate(prog):
                    m = len(y)
                    if mode == "reuse":  # one buffer for all calls
                        x, t, v = bX[:m], by[:m], bw[:m]
                        x[...], t[...] = X, y
                        if w is None:
                            v = None
                        else:
                            v[...] = w
                    else:
                        how = mode if mode in ("F", "strided") else "C"
                        x, t = layout(X.copy(), how), layout(y.copy(), how)
                        v = None if w is None else layout(w.copy(), how)
                    if mode == "readonly":
                        for a in (x, t, v):
                            if a is not None:
                                a.flags.writeable = False
                    call(est, op, x, t, v)
                    ctx.step()
                    if not (np.array_equal(x, X) and np.array_equal(t, y) and (w is None or np.array_equal(v, w))):
                        return ctx.fail("data", f"{name}: {op} modified its input arrays (mode {mode}, sizes {sizes})")
                    if mode == "fill":  # the caller overwrites what it passed
                        x[...], t[...] = 1e3, 77.0
                        if v is not None:
                            v[...] = 55.0
                    d = diff(observe(est, probe), want[i], 1e-6 if mode in ("F", "strided") else 1e-9)
                    if d:
                        return ctx.fail("buffer", f"{name}: mode {mode}, sizes {sizes}, after call {i}: {d}")
                    ctx.state(name, mode, sizes, f, i)
                ctx.trace()


def case_repeat(case, ctx):
    """The same history gives the same model whatever ran before and whatever the global random state is."""
    _, name = case
    S = SUBJECTS[name]
    prog = program(S, 1, 3, 0.02, (2, 1))
    probe = S.data(4, 3)[0] * 0.7
    want = solo(S, prog, 0.02, probe)
    others = [n for n in SUBJECTS if SUBJECTS[n].kind == S.kind]
    for other in [None] + others:
        for seed in (0, 12345):
            np.random.seed(seed)
            if other is not None:
                O = SUBJECTS[other]
                e = O.make(O.cfg(), 0.1)
                for op, X, y, w in program(O, 3, 2, 0.1, (1,)):
                    call(e, op, X, y, w)
            got = solo(S, prog, 0.02, probe)
            if not np.array_equal(np.random.random_sample(4), np.random.RandomState(seed).random_sample(4)):
                return ctx.fail("random-state", f"{name}: running the history (after {other}) moved the program's random state (seed {seed})")
            for i in range(3):
                d = diff(got[i], want[i])
                if d:
                    return ctx.fail("repeat", f"{name}: after {other} (seed {seed}) the same history differs at call {i}: {d}")
            ctx.step(3)
            ctx.trace()
            ctx.state(name, other, seed)


def case_params(case, ctx):
    """get_params returns exactly the objects given to the constructor, before and after every call."""
    for name, S in SUBJECTS.items():
        cfg = S.cfg()
        est = S.make(cfg, 0.02)
        before = {k: v for k, v in est.get_params(deep=False).items()}
        snap = {k: snapshot(v) for k, v in before.items()}
        for op, X, y, w in program(S, 1, 3, 0.02, (2, 1)):
            call(est, op, X, y, w)
            ctx.step()
            after = est.get_params(deep=False)
            if set(after) != set(before):
                return ctx.fail("params", f"{name}: parameter names changed after {op}")
            for k in before:
                if not same_snapshot(snap[k], snapshot(after[k])):
                    return ctx.fail("params", f"{name}: parameter {k} changed by {op}: {before[k]!r} -> {after[k]!r}")
        ctx.trace()
        ctx.state(name)


def case_reuse_method(case, ctx):
    """A method object used before in another estimator, even with another number of columns, behaves like a new one."""
    from ondil.estimators import OnlineLinearModel

    from .subjects import lin_data

    makers = {n: SUBJECTS[n].cfg for n in ("lin_ols", "lin_lasso", "lin_ridge")}
    for n, mk in makers.items():
        for cols_first in (1, 2, 3):
            for cols in (1, 2, 3):
                for fi in (True, False):
                    X, y = lin_data(12, 1)
                    Z, u = lin_data(12, 2)
                    m = mk()["m"]
                    first = OnlineLinearModel(method=m)
                    call(first, "fit", Z[:9, :cols_first] * 3, u[:9])
                    a = OnlineLinearModel(method=m, fit_intercept=fi)
                    b = OnlineLinearModel(method=mk()["m"], fit_intercept=fi)
                    for e in (a, b):
                        call(e, "fit", X[:9, :cols], y[:9])
                        call(e, "update", X[9:, :cols], y[9:])
                        ctx.step(2)
                    call(first, "update", Z[9:, :cols_first] * 3, u[9:])
                    fresh = OnlineLinearModel(method=mk()["m"])
                    call(fresh, "fit", Z[:9, :cols_first] * 3, u[:9])
                    call(fresh, "update", Z[9:, :cols_first] * 3, u[9:])
                    d = diff(observe(a, X[:, :cols]), observe(b, X[:, :cols])) or diff(observe(first, X[:, :cols_first]), observe(fresh, X[:, :cols_first]))
                    if d:
                        return ctx.fail("method", f"{n}: method object first used with {cols_first} columns, then {cols} (intercept {fi}): {d}")
                    ctx.trace()
                    ctx.state(n, cols_first, cols, fi)
