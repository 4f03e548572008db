"""C10: link functions against reference formulas on dense argument lattices."""
import itertools
import warnings

import numpy as np

from . import laws
from .util import close, layout

import ondil.distributions as D
import ondil.links as L

ASSUMPTIONS = [
    "working range: predictors with |eta| <= 30 for log- and logit-type links, eta in [-20, 1e6] for softplus links, eta > 0 for square-root links; parameters at least 1e-6 (1e-3 for shifted links) inside the support",
    "relative tolerance 1e-6 (the shifted links add a documented offset of 1e-10)",
]
SHIFTS = (-3.5, 0.0, 2.0, 10.0)


def BOUNDS(tier):
    n = 20000 if tier == "quick" else 200000
    return f"all 12 links, shifts {SHIFTS}, about {n} arguments per function over the whole working range incl. kinks and switch points; 8 shapes/layouts/dtypes; all sub-batches of a 5-element vector; per-parameter delegation of every distribution"


def _softplus(e):
    return np.where(e > 0, e, 0) + np.log1p(np.exp(-np.abs(e)))


def _sig(e):
    return np.where(e >= 0, 1 / (1 + np.exp(-np.abs(e))), np.exp(-np.abs(e)) / (1 + np.exp(-np.abs(e))))


def _isp(x):
    return x + np.log(-np.expm1(-x))


class Ref:
    def __init__(self, g, gi, dg, d2g, dgi, x, eta, lo, hi):
        self.g, self.gi, self.dg, self.d2g, self.dgi, self.x, self.eta, self.lo, self.hi = g, gi, dg, d2g, dgi, x, eta, lo, hi


def pos(n, lo, hi):
    return np.concatenate([np.geomspace(lo, hi, n), [0.5, 1.0, 1.0 - 1e-9, 1.0 + 1e-9, 2.0, 39.999, 40.0, 40.001, 50.0]])


def lin(n, lo, hi):
    extra = np.array([0.0, 1e-9, -1e-9, 1.0, -1.0, 39.999, 40.0, 40.001, 34.0, 34.5])
    a = np.concatenate([np.linspace(lo, hi, n), extra])
    return a[(a >= lo) & (a <= hi)]


def refs(kind, v, n):
    inf = np.inf
    if kind == "Identity":
        a = np.concatenate([-np.geomspace(1e-6, 1e8, n), [0.0], np.geomspace(1e-6, 1e8, n)])
        return Ref(lambda x: x, lambda e: e, lambda x: x * 0 + 1, lambda x: x * 0, lambda e: e * 0 + 1, a, a, -inf, inf)
    if kind in ("Log", "LogShiftValue", "LogShiftTwo"):
        x = pos(n, 1e-9 if kind == "Log" else 1e-3, 1e9) + v
        e = lin(n, -20 if kind == "Log" else -13.0, 34)
        return Ref(lambda x: np.log(x - v), lambda e: v + np.exp(e), lambda x: 1 / (x - v), lambda x: -1 / (x - v) ** 2, np.exp, x, e, v, inf)
    if kind == "LogIdent":
        x = pos(n, 1e-9, 1e9)
        e = np.concatenate([lin(n, -20, 30), np.geomspace(1, 1e9, n)])
        return Ref(
            lambda x: np.where(x <= 1, np.log(x), x - 1), lambda e: np.where(e <= 0, np.exp(np.minimum(e, 0)), e + 1),
            lambda x: np.where(x <= 1, 1 / x, 1.0), lambda x: np.where(x <= 1, -1 / x**2, 0.0), lambda e: np.where(e <= 0, np.exp(np.minimum(e, 0)), 1.0), x, e, 0, inf,
        )
    if kind == "Logit":
        t = np.geomspace(1e-9, 0.5, n)
        return Ref(
            lambda x: np.log(x) - np.log1p(-x), _sig, lambda x: 1 / (x * (1 - x)), lambda x: (2 * x - 1) / (x * (1 - x)) ** 2,
            lambda e: _sig(e) * _sig(-e), np.concatenate([t, 1 - t[t > 1e-6]]), lin(n, -20, 20), 0, 1,
        )
    if kind.startswith("InverseSoftPlus"):
        x = pos(n, 1e-6 if kind == "InverseSoftPlus" else 1e-3, 1e6)
        x = x + v
        e = np.concatenate([lin(n, -20 if kind == "InverseSoftPlus" else -13.0, 45), np.geomspace(45, 1e6, n // 4)])
        return Ref(
            lambda x: _isp(x - v), lambda e: _softplus(e) + v, lambda x: 1 / -np.expm1(-(x - v)), lambda x: -np.exp(-(x - v)) / np.expm1(-(x - v)) ** 2,
            _sig, x, e, v, inf,
        )
    x = pos(n, 1e-9 if kind == "Sqrt" else 1e-3, 1e9) + v
    e = pos(n, 1e-4 if kind == "Sqrt" else 0.03, 1e4)
    return Ref(
        lambda x: np.sqrt(x - v), lambda e: v + e**2, lambda x: 0.5 / np.sqrt(x - v), lambda x: -0.25 * (x - v) ** -1.5, lambda e: 2 * e, x, e, v, inf
    )


LINKS = [("Identity", None), ("Log", None), ("LogIdent", None), ("Logit", None), ("InverseSoftPlus", None), ("Sqrt", None)]
LINKS += [(k, None) for k in ("LogShiftTwo", "InverseSoftPlusShiftTwo", "SqrtShiftTwo")]
LINKS += [(k, v) for k in ("LogShiftValue", "InverseSoftPlusShiftValue", "SqrtShiftValue") for v in SHIFTS]
FUNCS = (("link", "x", "g"), ("inverse", "eta", "gi"), ("link_derivative", "x", "dg"), ("link_second_derivative", "x", "d2g"), ("inverse_derivative", "eta", "dgi"))


def make(kind, v):
    return getattr(L, kind)() if v is None else getattr(L, kind)(v)


def shift_of(kind, v):
    return 2.0 if kind.endswith("Two") else (0.0 if v is None else v)


def cases(tier):
    n = 20000 if tier == "quick" else 200000
    for kind, v in LINKS:
        yield ("values", kind, v, n)
        yield ("elementwise", kind, v)
    for name in laws.LAWS:
        yield ("delegate", name)


def run_case(case, ctx):
    with np.errstate(all="ignore"):
        return globals()["case_" + case[0]](case, ctx)


def near(a, b, arg):
    return np.abs(a - b) <= 1e-6 * np.abs(b) + 1e-9


def case_values(case, ctx):
    _, kind, v, n = case
    R = refs(kind, shift_of(kind, v), n)
    o = make(kind, v)
    for fn, dom, ref in FUNCS:
        arg = np.unique(getattr(R, dom))
        got = np.asarray(getattr(o, fn)(arg.copy()))
        if got.shape != arg.shape:
            return ctx.fail("shape", f"{kind}.{fn}: {got.shape}")
        exp = getattr(R, ref)(arg)
        bad = ~near(got, exp, arg)
        for a in arg[:: max(1, len(arg) // 200)]:
            ctx.state(kind, v, fn, float(a))
        ctx.step(len(arg))
        ctx.trace()
        if bad.any():
            i = int(np.argmax(bad))
            return ctx.fail(fn, f"{kind}({v}).{fn}({arg[i]!r}) = {got[i]!r}, expected {exp[i]!r}")
        if fn in ("link", "inverse") and not np.all(np.diff(got)[np.diff(arg) > 1e-6 * np.abs(arg[1:])] > 0):
            return ctx.fail("monotone", f"{kind}({v}).{fn} is not strictly increasing")
        if fn == "inverse" and not (np.all(got > R.lo) and np.all(got < R.hi)):
            i = int(np.argmax(~((got > R.lo) & (got < R.hi))))
            return ctx.fail("support", f"{kind}({v}).inverse({arg[i]!r}) = {got[i]!r} leaves ({R.lo}, {R.hi})")
        if fn.endswith("inverse_derivative") and not np.all(got > 0):
            return ctx.fail("slope", f"{kind}({v}).inverse_derivative not positive")
    far = np.array([-700.0, -300.0, -100.0, -40.0, -25.0, 25.0, 33.0, 36.0, 40.0, 100.0, 700.0, 1e4, 1e8])
    if kind != "Identity":
        if kind.startswith("Sqrt"):
            far = far[far > 0]
        got = np.asarray(o.inverse(far))
        ctx.step(len(far))
        shifted = shift_of(kind, v) != 0  # next to the shift, doubles cannot resolve the distance
        if not (np.all(np.isfinite(got)) and np.all((got >= R.lo) if shifted else (got > R.lo)) and np.all(got < R.hi) and np.all(np.diff(got) >= 0)):
            return ctx.fail("far", f"{kind}({v}).inverse({far}) = {got}")
    x, eta = np.unique(R.x), np.unique(R.eta)
    bx, be = np.asarray(o.inverse(o.link(x))), np.asarray(o.link(o.inverse(eta)))
    ctx.step(len(x) + len(eta))
    if not np.all(np.abs(bx - x) <= 1e-6 * np.abs(x) + 1e-9):
        i = int(np.argmax(np.abs(bx - x) / (np.abs(x) + 1e-3)))
        return ctx.fail("roundtrip-x", f"{kind}({v}): inverse(link({x[i]!r})) = {bx[i]!r}")
    if not np.all(np.abs(be - eta) <= 2e-5 * (1 + np.abs(eta))):
        i = int(np.argmax(np.abs(be - eta) / (1 + np.abs(eta))))
        return ctx.fail("roundtrip-eta", f"{kind}({v}): link(inverse({eta[i]!r})) = {be[i]!r}")
    lo, hi = o.link_support
    if not (np.isinf(lo) == np.isinf(R.lo) and np.isinf(hi) == np.isinf(R.hi)):
        return ctx.fail("declared-support", f"{kind}({v}): {o.link_support}")
    if np.isfinite(R.lo) and not (R.lo <= lo <= R.lo + 1e-12) or np.isfinite(R.hi) and not (R.hi - 1e-12 <= hi <= R.hi):
        return ctx.fail("declared-support", f"{kind}({v}): {o.link_support}")
    ctx.outcome(kind, v)


def case_elementwise(case, ctx):
    _, kind, v = case
    s = shift_of(kind, v)
    R = refs(kind, s, 50)
    xs = {"x": np.array([0.03, 0.4, 0.7, 0.9, 0.97]) + s if kind != "Identity" else np.array([-4.0, -0.3, 0.0, 2.0, 60.0]), "eta": np.array([0.05, 0.6, 1.5, 4.0, 11.0])}
    wide = {"x": np.array([0.03, 0.4, 2.0, 39.0, 60.0]) + s, "eta": np.array([-9.0, -1.5, 0.0, 4.0, 18.0])}
    for k in ("x", "eta"):
        if k == "eta" and kind.startswith("Sqrt") or k == "x" and kind == "Logit":
            continue
        xs[k] = wide[k]
    for fn, dom, ref in FUNCS:
        o = make(kind, v)
        f = getattr(o, fn)
        a = xs[dom]
        full = np.asarray(f(a.copy()))
        for r in range(0, 6):
            for sub in itertools.combinations(range(5), r):
                i = np.array(sub, dtype=int)
                got = np.asarray(f(a[i].copy()))
                ctx.step()
                if got.shape != (r,) or not close(got, full[i], 1e-12, 1e-14):
                    return ctx.fail("subset", f"{kind}({v}).{fn}{a[i]} = {got} in batch {full[i]}")
        for i in range(5):
            for scal in (float(a[i]), np.float64(a[i]), np.array(a[i])):
                got = np.asarray(f(scal))
                ctx.step()
                if got.shape != () or not close(got, full[i], 1e-12, 1e-14):
                    return ctx.fail("scalar", f"{kind}({v}).{fn}({scal!r}) = {got} in batch {full[i]}")
        M = np.vstack([a, a[::-1], np.roll(a, 2)])
        E = np.vstack([full, full[::-1], np.roll(full, 2)])
        for how in ("C", "F", "strided"):
            B = layout(M, how)
            keep = B.copy()
            got = np.asarray(f(B))
            ctx.step()
            if got.shape != M.shape or not close(got, E, 1e-12, 1e-14):
                return ctx.fail("matrix", f"{kind}({v}).{fn} on a {how} matrix")
            if not np.array_equal(B, keep):
                return ctx.fail("mutation", f"{kind}({v}).{fn} changed its argument")
        for n in (33, 129, 1025, 5003):
            got = np.asarray(f(np.resize(a, n)))
            ctx.step()
            if got.shape != (n,) or not close(got, np.resize(full, n), 1e-12, 1e-14):
                return ctx.fail("long", f"{kind}({v}).{fn} on a vector of {n} elements")
        got = np.asarray(f(a.astype(np.float32)))
        exp = getattr(R, ref)(a.astype(np.float32).astype(float))
        ctx.step()
        # single precision cannot carry the offset of shifted or saturating links closer than its resolution
        if not np.all(np.abs(got - exp) <= 2e-3 * np.abs(exp) + 2e-5):
            return ctx.fail("float32", f"{kind}({v}).{fn}({a}) = {got} expected {exp}")
        ints = np.array([1, 2, 5, 20]) + int(np.ceil(s)) if dom == "x" else np.array([1, 2, 5, 20])
        if not (dom == "x" and kind == "Logit"):
            ctx.step()
            if not close(np.asarray(f(ints), dtype=float), np.asarray(f(ints.astype(float))), 1e-9, 1e-12):
                return ctx.fail("integer", f"{kind}({v}).{fn}({ints}) = {f(ints)} but {f(ints.astype(float))} for floats")
        perm = np.array([3, 1, 4, 0, 2])
        if not close(np.asarray(f(a[perm])), full[perm], 1e-12, 1e-14):
            return ctx.fail("perm", f"{kind}({v}).{fn}")
        ctx.state(kind, v, fn, full)
        ctx.trace()


POOL = ("Identity", "Log", "LogIdent", "Logit", "InverseSoftPlus", "Sqrt")


def case_delegate(case, ctx):
    """Each distribution parameter uses the link it was given, and only that one."""
    _, name = case
    import inspect

    cls = getattr(D, name)
    names = [n for n in inspect.signature(cls.__init__).parameters if n.endswith("_link")]
    P = cls().n_params
    if len(names) != P:
        return ctx.fail("signature", f"{name}: links {names} for {P} parameters")
    x = np.array([0.1, 0.45, 0.8])
    for combo in itertools.product(POOL, repeat=P) if P <= 2 else [tuple(POOL[(i + s * k) % 6] for k in range(P)) for i in range(6) for s in (0, 1, 2)]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = cls(**{n: make(k, None) for n, k in zip(names, combo)})
        for p, k in enumerate(combo):
            R = refs(k, 0.0, 5)
            for fn, ref in (("link_function", R.g), ("link_inverse", R.gi), ("link_function_derivative", R.dg), ("link_inverse_derivative", R.dgi)):
                got = np.asarray(getattr(d, fn)(x, param=p))
                ctx.step()
                if not close(got, ref(x), 1e-6, 1e-9):
                    return ctx.fail("delegate", f"{name}{combo}.{fn}(param={p}) = {got} expected {ref(x)}")
        ctx.state(name, combo)
        ctx.trace()
