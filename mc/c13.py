"""C13: save/restore, copy, clone and refit at every point (and every subset of points) of every history."""
import copy
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from sklearn.base import clone

from ondil import OnlineScaler
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, Ridge

from . import env
from . import subjects as sb
from .c11 import program, solo
from .subjects import SUBJECTS, call, diff, observe, same_snapshot, snapshot

ASSUMPTIONS = ["restore happens with the same library version", "cyclic coordinate selection"]
CHUNK = 1
K = 4
SIZES = (1, 2, 1)


def BOUNDS(tier):
    return (
        f"{len(SUBJECTS)} estimator configurations; fit + 3 updates; all {2 ** K} subsets of restore points x pickle protocols/deepcopy; at each point: original and copy continued with different data in both orders, clone, refit on other data "
        "(other row counts, weights, columns) followed by updates, parameter read/set round trips for every constructor parameter; restore in a fresh process"
    )


def cases(tier):
    yield ("process", "all")
    yield ("columns", "all")
    for name in sorted(SUBJECTS):
        yield ("restore", name, tier)
        yield ("indep", name)
        yield ("clone", name)
        yield ("refit", name)
    yield ("params", "all")
    yield ("setparams", "all")


def warmup():
    sb.warm()


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def restorers(tier):
    out = {f"pickle{p}": (lambda e, p=p: pickle.loads(pickle.dumps(e, protocol=p))) for p in ((0, 2, 5) if tier == "quick" else range(6))}
    out["deepcopy"] = copy.deepcopy
    out["twice"] = lambda e: pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(e)))))
    return out


def case_restore(case, ctx):
    """Replacing the estimator by its restored copy after any subset of the calls changes nothing."""
    _, name, tier = case
    S = SUBJECTS[name]
    prog = program(S, 1, K, 0.02, SIZES)
    probe = S.data(4, 3)[0] * 0.7
    want = solo(S, prog, 0.02, probe)
    for how, fn in restorers(tier).items():
        for subset in itertools.product((0, 1), repeat=K):
            if not any(subset):
                continue
            est = S.make(S.cfg(), 0.02)
            for i, (op, X, y, w) in enumerate(prog):
                call(est, op, X, y, w)
                if subset[i]:
                    est = fn(est)
                ctx.step()
                if not est.is_fitted:
                    return ctx.fail("fitted", f"{name}: {how} after call {i} is not fitted")
                d = diff(observe(est, probe), want[i])
                if d:
                    return ctx.fail("restore", f"{name}: {how} at {subset}: after call {i}: {d}")
            ctx.trace()
            ctx.state(name, how, subset)
    # an unfitted estimator survives as well
    for how, fn in restorers(tier).items():
        est = fn(S.make(S.cfg(), 0.02))
        if est.is_fitted:
            return ctx.fail("fitted", f"{name}: {how} of an unfitted estimator is fitted")
        for i, (op, X, y, w) in enumerate(prog):
            call(est, "partial_fit", X, y, w)
            d = diff(observe(est, probe), want[i])
            if d:
                return ctx.fail("restore", f"{name}: {how} before the first fit: call {i}: {d}")
            ctx.step()


def case_indep(case, ctx):
    """Original and copy continue independently with different data, in either order and interleaved."""
    _, name = case
    S = SUBJECTS[name]
    prog = program(S, 1, K, 0.02, SIZES)
    alt = [("update", X * 0.8 + 0.1, y, w) for _, X, y, w in program(S, 2, K, 0.02, (2, 1, 2))[1:]]
    probe = S.data(4, 3)[0] * 0.7
    want = solo(S, prog, 0.02, probe)
    for how, fn in (("pickle", lambda e: pickle.loads(pickle.dumps(e))), ("deepcopy", copy.deepcopy)):
        for k in range(1, K):
            # what the copy should show after each alternative update
            ref = S.make(S.cfg(), 0.02)
            for op, X, y, w in prog[:k]:
                call(ref, op, X, y, w)
            wa = []
            for op, X, y, w in alt[:2]:
                call(ref, op, X, y, w)
                wa.append(observe(ref, probe))
            rest = prog[k:]
            for order in set(itertools.permutations((0,) * len(rest) + (1, 1))):
                est = S.make(S.cfg(), 0.02)
                for op, X, y, w in prog[:k]:
                    call(est, op, X, y, w)
                cp = fn(est)
                io, ic = k, 0
                for who in order:
                    if who == 0:
                        op, X, y, w = prog[io]
                        call(est, op, X, y, w)
                        io += 1
                    else:
                        op, X, y, w = alt[ic]
                        call(cp, op, X, y, w)
                        ic += 1
                    ctx.step()
                    d = diff(observe(est, probe), want[io - 1])
                    if d:
                        return ctx.fail("original", f"{name}: {how} at {k}, order {order}: original differs: {d}")
                    d = diff(observe(cp, probe), wa[ic - 1]) if ic else None
                    if d:
                        return ctx.fail("copy", f"{name}: {how} at {k}, order {order}: copy differs: {d}")
                ctx.trace()
                ctx.state(name, how, k, order)


def case_clone(case, ctx):
    _, name = case
    S = SUBJECTS[name]
    prog = program(S, 1, K, 0.02, SIZES)
    other = program(S, 2, 3, 0.02, (2, 1))
    probe = S.data(4, 3)[0] * 0.7
    want, fresh = solo(S, prog, 0.02, probe), solo(S, other, 0.02, probe)
    for k in range(K + 1):
        est = S.make(S.cfg(), 0.02)
        for op, X, y, w in prog[:k]:
            call(est, op, X, y, w)
        c = clone(est)
        if c.is_fitted:
            return ctx.fail("fitted", f"{name}: clone after {k} calls is fitted")
        a, b = est.get_params(deep=False), c.get_params(deep=False)
        for key in a:
            if type(a[key]) is not type(b[key]) or not (same_snapshot(snapshot(a[key]), snapshot(b[key])) or not isinstance(a[key], (int, float, str, bool, np.ndarray, type(None)))):
                return ctx.fail("params", f"{name}: clone after {k} calls has {key}={b[key]!r}, original {a[key]!r}")
        for i, (op, X, y, w) in enumerate(other):
            call(c, op, X, y, w)
            ctx.step()
            d = diff(observe(c, probe), fresh[i])
            if d:
                return ctx.fail("clone", f"{name}: clone after {k} calls differs from a new estimator at its call {i}: {d}")
        for i in range(k, K):
            op, X, y, w = prog[i]
            call(est, op, X, y, w)
            d = diff(observe(est, probe), want[i])
            if d:
                return ctx.fail("original", f"{name}: cloning after {k} calls changed the original: {d}")
        ctx.trace()
        ctx.state(name, k)


def case_refit(case, ctx):
    _, name = case
    S = SUBJECTS[name]
    prog = program(S, 1, K, 0.02, SIZES)
    probe = S.data(4, 3)[0] * 0.7
    for variant in range(3):
        other = [list(c) for c in program(S, 2 + variant % 2, 3, 0.02, (2, 1))]
        if variant == 1:
            for c in other:
                c[1] = c[1] * 5 - 3
                c[3] = None
        if variant == 2 and S.kind != "gam":
            other[0][1], other[0][2], other[0][3] = other[0][1][:6], other[0][2][:6], None
        fresh = solo(S, [tuple(c) for c in other], 0.02, probe)
        for k in range(1, K + 1):
            for again in (1, 2):
                est = S.make(S.cfg(), 0.02)
                for op, X, y, w in prog[:k]:
                    call(est, op, X, y, w)
                for _ in range(again):
                    for i, (op, X, y, w) in enumerate(other):
                        call(est, op, X, y, w)
                        ctx.step()
                        d = diff(observe(est, probe), fresh[i])
                        if d:
                            return ctx.fail("refit", f"{name}: refit (variant {variant}) after {k} calls: call {i} differs from a new estimator: {d}")
                ctx.trace()
                ctx.state(name, variant, k, again)


def case_columns(case, ctx):
    """Refitting with another number of columns equals a new estimator."""
    mk = {
        "scaler": lambda: OnlineScaler(forget=0.02), "ols": lambda: OnlineLinearModel(forget=0.02), "lasso": lambda: OnlineLinearModel(method=LassoPath(lambda_n=6)), "enet": lambda: OnlineLinearModel(method=ElasticNetPath(alpha=0.5, lambda_n=6)),
        "ridge": lambda: OnlineLinearModel(method=Ridge()), "olasso": lambda: OnlineLasso(lambda_n=6), "gam": lambda: ODR(equation={0: "all", 1: "all"}, **sb.FAST), "gamlasso": lambda: ODR(equation={0: "all"}, method=LassoPath(lambda_n=6), **sb.FAST),
        "gamridge": lambda: ODR(equation={0: "all"}, method=Ridge(), **sb.FAST), "gamenet": lambda: ODR(equation={0: "all", 1: "all"}, method="elasticnet", **sb.FAST),
    }
    X, y = SUBJECTS["gam_default"].data(30, 1)
    Z, u = SUBJECTS["gam_default"].data(30, 2)
    for name, f in mk.items():
        for c1, c2 in itertools.permutations((1, 2, 3), 2):
            for upd in (0, 1, 2):
                est, fresh = f(), f()
                call(est, "fit", X[:24, :c1], y[:24])
                for i in range(upd):
                    call(est, "update", X[24 + i : 25 + i, :c1], y[24 + i : 25 + i])
                for e in (est, fresh):
                    call(e, "fit", Z[:26, :c2], u[:26])
                    call(e, "update", Z[26:, :c2], u[26:])
                    ctx.step(2)
                d = diff(observe(est, X[:4, :c2]), observe(fresh, X[:4, :c2]))
                if d:
                    return ctx.fail("refit", f"{name}: refit with {c2} instead of {c1} columns after {upd} updates: {d}")
                ctx.trace()
                ctx.state(name, c1, c2, upd)


ALTS = {  # an alternative value for every constructor parameter
    "OnlineScaler": dict(forget=0.05, to_scale=np.array([0, 2])),
    "OnlineLinearModel": dict(forget=0.05, scale_inputs=False, fit_intercept=False, regularize_intercept=True, method="lasso", ic="aic"),
    "OnlineLasso": dict(forget=0.05, scale_inputs=False, fit_intercept=False, regularize_intercept=True, ic="hqc", early_stop=2, beta_lower_bound=np.array([-9.0, 0.0, -9.0, -9.0]), beta_upper_bound=np.array([9.0, 0.2, 9.0, 9.0]),
                        lambda_n=7, lambda_eps=1e-2, start_value="average", tolerance=1e-2, max_iterations=1, selection="random"),
    "OnlineDistributionalRegression": dict(equation={0: np.array([0, 1]), 1: "all"}, forget=0.05, method="lasso", scale_inputs=False, fit_intercept={0: False, 1: True}, regularize_intercept=True, ic="bic", model_selection="global_ll",
                                           prefit_initial=2, prefit_update=1, step_size=0.5, verbose=1, debug=True, param_order=np.array([1, 0]), cautious_updates=True, cond_start_val=False, max_it_outer=3, max_it_inner=2,
                                           abs_tol_outer=1e-1, abs_tol_inner=1e-1, rel_tol_outer=1e-1, rel_tol_inner=1e-1, min_it_outer=2),
}


def classes():
    return {c.__name__: c for c in (OnlineScaler, OnlineLinearModel, OnlineLasso, ODR)}


def case_params(case, ctx):
    """get_params reports what was given, set_params is the same as constructing with the value, both round-trip."""
    for cn, cls in classes().items():
        names = set(cls().get_params(deep=False))
        for key, val in ALTS[cn].items():
            if key not in names:
                return ctx.fail("params", f"{cn} lost its parameter {key}")
            est = cls(**{key: val})
            got = est.get_params(deep=False)[key]
            if not same_snapshot(snapshot(val), snapshot(got)):
                return ctx.fail("params", f"{cn}({key}={val!r}).get_params gives {got!r}")
            default = cls().get_params(deep=False)
            for other in names - {key}:
                a, b = default[other], est.get_params(deep=False)[other]
                if isinstance(a, (int, float, str, bool, type(None))) and a != b:
                    return ctx.fail("params", f"{cn}({key}={val!r}) changes {other} from {a!r} to {b!r}")
            e2 = cls()
            if e2.set_params(**{key: val}) is not e2:
                return ctx.fail("params", f"{cn}.set_params does not return the estimator")
            if not same_snapshot(snapshot(val), snapshot(e2.get_params(deep=False)[key])):
                return ctx.fail("params", f"{cn}.set_params({key}={val!r}) gives {e2.get_params(deep=False)[key]!r}")
            e3 = cls(**est.get_params(deep=False))
            for k, v in est.get_params(deep=False).items():
                if not same_snapshot(snapshot(v), snapshot(e3.get_params(deep=False)[k])):
                    return ctx.fail("params", f"{cn}: parameter {k} does not round-trip")
            ctx.step(3)
            ctx.trace()
            ctx.state(cn, key)


def case_setparams(case, ctx):
    """A parameter set at any point takes effect in the next fit exactly as if it had been given to the constructor."""
    for cn, cls in classes().items():
        S = SUBJECTS["gam_default" if cls is ODR else "lin_ols"]
        X, y = S.data(S.n0 + 3, 1)
        n0 = S.n0
        base = dict(max_it_outer=4, max_it_inner=3, equation={0: "all", 1: "all"}) if cls is ODR else (dict(lambda_n=8) if cls is OnlineLasso else {})
        pre = dict(base)
        for key, val in ALTS[cn].items():
            if key == "selection":
                continue
            extra = {}
            if key == "regularize_intercept":
                extra = {} if cls is not OnlineLinearModel else {"method": "lasso"}
            if key in ("prefit_initial", "prefit_update", "min_it_outer"):
                extra = {"max_it_outer": 4}
            if cls is OnlineLasso and key == "fit_intercept":
                extra = {}
            for upd in (0, 2):
                fresh = cls(**{**pre, **extra, key: val})
                est = cls(**pre)
                call(est, "fit", X[:n0], y[:n0])
                for i in range(upd):
                    call(est, "update", X[n0 + i : n0 + i + 1], y[n0 + i : n0 + i + 1])
                est.set_params(**{**extra, key: val})
                for e in (fresh, est):
                    call(e, "fit", X[:n0] * 0.9, y[:n0])
                    call(e, "update", X[n0:], y[n0:])
                    ctx.step(2)
                a, b = observe(est, X[:4]), observe(fresh, X[:4])
                d = diff(a, b)
                if d:
                    return ctx.fail("setparams", f"{cn}: {key}={val!r} set after {upd} updates differs from construction: {d}")
                ctx.trace()
                ctx.state(cn, key, upd)


CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
from mc import env
env.import_ondil()
import numpy as np
from mc.subjects import call, observe
with open(sys.argv[2], "rb") as fh:
    todo = pickle.load(fh)
out = {}
for name, blob, prog, probe in todo:
    est = pickle.loads(blob)
    obs = [observe(est, probe)]
    for op, X, y, w in prog:
        call(est, op, X, y, w)
        obs.append(observe(est, probe))
    out[name] = obs
with open(sys.argv[3], "wb") as fh:
    pickle.dump(out, fh)
"""


def case_process(case, ctx):
    """The saved estimator continues identically in a fresh interpreter (nothing lives in module state)."""
    todo, want = [], {}
    for name, S in SUBJECTS.items():
        prog = program(S, 1, K, 0.02, SIZES)
        probe = S.data(4, 3)[0] * 0.7
        obs = solo(S, prog, 0.02, probe)
        for k in (1, 3):
            est = S.make(S.cfg(), 0.02)
            for op, X, y, w in prog[:k]:
                call(est, op, X, y, w)
            todo.append((f"{name}@{k}", pickle.dumps(est), prog[k:], probe))
            want[f"{name}@{k}"] = obs[k - 1 :]
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        with open(os.path.join(d, "in.pkl"), "wb") as fh:
            pickle.dump(todo, fh)
        r = subprocess.run([sys.executable, "-c", CHILD, env.VERIF, os.path.join(d, "in.pkl"), os.path.join(d, "out.pkl")], capture_output=True, text=True, timeout=500, cwd=d)
        if r.returncode != 0:
            return ctx.fail("process", f"restoring in a fresh process fails: {r.stderr[-800:]}")
        with open(os.path.join(d, "out.pkl"), "rb") as fh:
            got = pickle.load(fh)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for name in want:
        for i, (a, b) in enumerate(zip(got[name], want[name], strict=True)):
            x = diff(a, b, 1e-8)
            if x:
                return ctx.fail("process", f"{name}: restored in a fresh process, step {i}: {x}")
            ctx.step()
        ctx.trace()
        ctx.state(name)
