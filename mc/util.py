"""Shared alphabets and comparison helpers (plain, deterministic)."""
import itertools

import numpy as np


def compositions(n):
    """All ordered partitions of n into positive parts."""
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], 1
        for b in bits:
            if b:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        out.append(cur)
        yield tuple(out)


def data_matrix(n, j, variant=0):
    """Deterministic design matrix with generic (full-rank) rows."""
    rs = np.random.RandomState(1000 + 17 * n + 131 * j + variant)
    X = np.round(rs.uniform(-2, 2, size=(n, j)) * 16) / 16
    if variant % 3 == 1:
        X = X + 3.0
    if variant % 3 == 2:
        X = X * np.linspace(0.25, 4.0, j)[None, :]
    return np.ascontiguousarray(X)


def close(a, b, rtol=1e-8, atol=1e-10):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def close_scaled(a, b, tol=1e-8, scale=None):
    """|a-b| <= tol * (1 + max|b|): one common scale for the whole array."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return close(a, b, tol, tol)
    s = (np.max(np.abs(b)) if b.size else 0.0) if scale is None else scale
    return bool(np.all(np.abs(a - b) <= tol * (s + 1e-300) + tol * 1e-3))


def maxdiff(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    if a.size == 0:
        return 0.0
    return float(np.max(np.abs(a - b)))


def raises(exc, fn, *a, **k):
    try:
        fn(*a, **k)
    except exc:
        return True
    except Exception:
        return False
    return False


def layout(A, how):
    A = np.asarray(A)
    if how == "C":
        return np.ascontiguousarray(A)
    if how == "F":
        return np.asfortranarray(A)
    if how == "strided":
        if A.ndim == 1:
            big = np.full(2 * A.shape[0], np.pi)
            big[::2] = A
            return big[::2]
        big = np.full((2 * A.shape[0], 2 * A.shape[1]), np.pi)
        big[::2, 1::2] = A
        return big[::2, 1::2]
    raise ValueError(how)


def batches(parts):
    """Slices of the consecutive batches of a composition."""
    pos, out = 0, []
    for m in parts:
        out.append(slice(pos, pos + m))
        pos += m
    return out


def batches_ok(w, parts):
    """Every batch has a positive weight (all-zero batches are rejected by input validation)."""
    return all(w[s].sum() > 0 for s in batches(parts))
