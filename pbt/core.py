"""Shared pieces of checks: violation type, assertion helpers."""
import json

import numpy as np


class Violation(Exception):
    """A property is broken on a concrete case."""

    def __init__(self, what, sig=None):
        super().__init__(what)
        self.what = what
        self.sig = sig or what.split(":")[0][:80]


class Reject(Exception):
    """The generated case is outside the property's precondition (not counted)."""


def key(case):
    """Canonical text of a case."""
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def require(cond, what, sig=None):
    """Raise Violation unless cond."""
    if not cond:
        raise Violation(what() if callable(what) else what, sig)


def close(a, b, what, rtol=1e-8, atol=1e-12, sig=None):
    """Require arrays equal: same shape, |a-b| <= atol + rtol*max|b|."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {b.shape}", sig or what)
    if a.size == 0:
        return 0.0
    fa = np.isfinite(a)
    fb = np.isfinite(b)
    if not (fa.all() and fb.all()):
        if not fb.all() and np.array_equal(fa, fb):
            a = np.where(fa, a, 0)
            b = np.where(fb, b, 0)
        else:
            raise Violation(f"{what}: non-finite values (got {np.sum(~fa)}, "
                            f"expected {np.sum(~fb)})", sig or what)
    d = np.abs(a - b)
    lim = atol + rtol * np.max(np.abs(b))
    m = float(d.max())
    if not m <= lim:
        idx = np.unravel_index(int(np.argmax(d)), d.shape)
        idx = tuple(int(i) for i in idx)
        raise Violation(
            f"{what}: max difference {m:.3e} > {lim:.3e} at {idx}: got {a[idx]!r}, "
            f"expected {b[idx]!r}", sig or what)
    return m


def same(a, b, what, sig=None):
    """Require exact equality of arrays."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Violation(f"{what}: got {_short(a)}, expected {_short(b)}", sig or what)


def _short(a):
    s = np.array2string(np.asarray(a), threshold=40, edgeitems=6)
    return " ".join(s.split())[:400] + f" shape={np.shape(a)}"


def raises(fn, what, excs=(Exception,), sig=None, ok_value=None):
    """Require fn() to raise one of excs (SystemExit counts when listed)."""
    try:
        r = fn()
    except excs:
        return
    if ok_value is not None and ok_value(r):
        return
    raise Violation(f"{what}: accepted silently", sig or what)
