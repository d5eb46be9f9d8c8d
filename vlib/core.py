"""Pieces shared by all property modules: the Test record, violations,
comparison helpers and the reference/under-test module pair."""

import dataclasses
import math
from typing import Any, Callable, Optional

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Inconclusive(Exception):
    """The oracle cannot judge this case (counted, never a violation)."""


@dataclasses.dataclass
class Test:
    name: str
    strategy: Callable[[], Any]
    fn: Callable[[Any], Any]  # returns falsy for a trivial case
    quick: int  # generated cases, whole check, quick tier
    thorough: int
    rule: str = "a case whose comparison ran to the end"
    shards: int = 8  # most worker processes this test is spread over
    cost: float = 1.0  # rough relative cost per case, for balancing
    known: Optional[Callable[[Any], bool]] = None


LABELS = {}


def label(*names):
    for n in names:
        LABELS[n] = LABELS.get(n, 0) + 1


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def arr(x):
    return np.asarray(x)


def _short(x):
    s = np.array2string(np.asarray(x), threshold=20, precision=17)
    return s if len(s) < 400 else s[:400] + "..."


def close(what, got, want, rtol=1e-9, atol=0.0):
    """got == want elementwise to |got-want| <= atol + rtol*|want|; NaN matches
    NaN and inf matches the same inf; shapes must agree."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Violation(
            "%s: shape %s, reference shape %s" % (what, g.shape, w.shape)
        )
    if g.size == 0:
        return
    if g.dtype.kind in "biu" and w.dtype.kind in "biu":
        ok = g == w
    else:
        with np.errstate(all="ignore"):
            ok = np.abs(g - w) <= atol + rtol * np.abs(w)
            ok |= g == w
            ok |= np.isnan(g) & np.isnan(w)
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))
        idx = tuple(bad[0])
        gv = np.atleast_1d(g)[idx]
        wv = np.atleast_1d(w)[idx]
        raise Violation(
            "%s: got %r, expected %r at %s (%d of %d elements differ, rtol=%g atol=%g)"
            % (what, gv, wv, idx if g.ndim else "()", len(bad), g.size, rtol, atol)
        )


def equal(what, got, want):
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        return close(what, got, want, rtol=0.0)
    if not (got == want):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def f(x):
    """A Python float from a scalar of either library."""
    return float(np.asarray(x))


def finite(*xs):
    return all(math.isfinite(float(x)) for x in xs)


def raises(fn):
    """The exception fn raises, or None."""
    try:
        fn()
    except Exception as e:  # noqa: BLE001
        return e
    return None
