"""C18: numerical kernels meet their mathematical definitions.

Oracles: scipy.special, exact polynomial and elementary integrals, an independent scalar
implementation of Akima's rule, exact rational arithmetic for polynomials, GalSim for the utilities."""

import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import scipy.special as sp
from hypothesis import strategies as st

from jax_galsim.core.integrate import ClenshawCurtisQuad, quad_integral
from jax_galsim.core.interpolate import akima_interp, akima_interp_coeffs
from jax_galsim.core.math import safe_sqrt
from jax_galsim.core import utils as U
from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, label, require
from vlib.specs import JG, RG


def same_value(what, got, want, rtol, lo=1e-280, hi=1e280):
    """Relative comparison where the true value is an ordinary number; zero/infinity only where it is not."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    require(got.shape == want.shape, "%s: shape %s instead of %s", what, got.shape, want.shape)
    ok = np.isfinite(want) & (np.abs(want) > lo) & (np.abs(want) < hi)
    close(what, got[ok], want[ok], rtol)
    small = np.abs(want) <= lo
    close(what + " (underflow)", got[small], np.zeros(int(small.sum())), 0.0, 2 * lo)
    require(np.all(np.abs(got[~ok & ~small]) > 0.1 * hi), "%s: %s instead of overflow", what, got[~ok & ~small])
    return ok.any()


# ------------------------------------------------------------------ Bessel functions
def mags(lo, hi):
    """Magnitudes spread evenly over decades."""
    return S.fl(math.log10(lo), math.log10(hi), 6).map(lambda v: 10.0**v)


NU = st.one_of(S.fl(-0.85, 4.0, 6), S.fl(-60, 60, 4), st.integers(-120, 120).map(lambda n: n / 2.0), st.integers(-60, 60).map(float),
               st.sampled_from([49.999, 50.0, 50.001, 0.0, 0.5, -0.5, 1e-9, -1e-9, 1e-4, 2.5000001]), S.fl(-120, 120, 3))
KX = st.one_of(mags(1e-8, 600.0), S.fl(1.5, 2.5, 6), st.sampled_from([2.0, np.nextafter(2.0, 3), 1.0, 0.1, 10.0, 1e-6, 1e-10]), S.fl(0.01, 30, 4))


@st.composite
def kvcase(draw):
    return dict(nu=draw(st.lists(NU, min_size=12, max_size=12)), x=draw(st.lists(KX, min_size=12, max_size=12)),
                s=draw(st.integers(0, 11)))


_kv_grad = jax.jit(jax.vmap(jax.grad(JG.bessel.kv, argnums=1)))
_kv_x = jax.jit(lambda nu, x: JG.bessel.kv(nu, x))


def besselk(case):
    nu, x = np.array(case["nu"]), np.array(case["x"])
    some = same_value("kv(nu, x)", JG.bessel.kv(nu, x), sp.kv(nu, x), 2e-12)
    same_value("kv(-nu, x)", JG.bessel.kv(-nu, x), sp.kv(nu, x), 2e-12)
    m, n = nu[:4].reshape(4, 1), x[:3].reshape(1, 3)
    same_value("kv, broadcast", JG.bessel.kv(m, n), sp.kv(m, n), 2e-12)
    s = case["s"]
    same_value("kv, numbers", JG.bessel.kv(float(nu[s]), float(x[s])), sp.kv(nu[s], x[s]), 2e-12)
    same_value("kv, one order", JG.bessel.kv(float(nu[s]), x), sp.kv(nu[s], x), 2e-12)
    same_value("kv, compiled", _kv_x(float(nu[s]), x), sp.kv(nu[s], x), 2e-12)
    same_value("dkv/dx", _kv_grad(nu, x), -0.5 * (sp.kv(nu - 1, x) + sp.kv(nu + 1, x)), 4e-12)
    # at and below the edge of its domain
    close("kv(nu, 0)", JG.bessel.kv(float(nu[s]), 0.0), np.inf)
    require(np.isnan(float(JG.bessel.kv(float(nu[s]), -float(x[s])))), "kv(%s, %s) is a number", nu[s], -x[s])
    if np.max(np.abs(nu)) >= 50:
        label("large order")
    if np.min(np.abs(x - 2)) < 0.5:
        label("near x=2")
    return some


X = st.one_of(S.fl(-12, 12, 6), mags(1e-12, 1e6), mags(1e-12, 1e6).map(lambda v: -v),
              st.sampled_from([0.0, 4.0, -4.0, 8.0, -8.0, np.nextafter(4.0, 9), np.nextafter(8.0, 9), np.nextafter(4.0, 0), 2.404825557695773,
                               5.520078110286311, 8.653727912911013, math.pi, 1e-300]), S.fl(3.9, 4.1, 7), S.fl(7.9, 8.1, 7))


@st.composite
def xcase(draw):
    return dict(x=draw(st.lists(X, min_size=24, max_size=24)), s=draw(st.integers(0, 23)))


def j0si(case):
    x = np.array(case["x"])
    w = sp.j0(x)
    atol = 2e-15 + 4e-16 * np.abs(x)  # sin/cos of a large argument, like the reference's
    require(np.all(np.abs(np.asarray(JG.bessel.j0(x)) - w) <= atol), "j0(%s) = %s instead of %s", x, JG.bessel.j0(x), w)
    close("j0, 2d", JG.bessel.j0(x.reshape(4, 6)), w.reshape(4, 6), 0.0, atol.max())
    s = case["s"]
    close("j0, number", JG.bessel.j0(float(x[s])), w[s], 0.0, atol[s])
    close("j0 against GalSim", JG.bessel.j0(float(x[s])), RG.bessel.j0(float(x[s])), 0.0, 2 * atol[s])
    w = sp.sici(x)[0]
    close("si", JG.bessel.si(x), w, 4e-15, 2e-308)
    close("si, 2d", JG.bessel.si(x.reshape(4, 6)), w.reshape(4, 6), 4e-15, 2e-308)
    close("si, number", JG.bessel.si(float(x[s])), w[s], 4e-15, 2e-308)
    close("si against GalSim", JG.bessel.si(float(x[s])), RG.bessel.si(float(x[s])), 4e-15, 2e-308)
    # numerically safe square root
    close("safe_sqrt", safe_sqrt(x), np.sqrt(np.maximum(x, 0)), 1e-15)
    g = np.asarray(_dsqrt(x))
    with np.errstate(divide="ignore"):
        close("d safe_sqrt", g, np.where(x > 0, 0.5 / np.sqrt(np.where(x > 0, x, 1)), 0.0), 1e-14)
    return True


_dsqrt = jax.jit(jax.vmap(jax.grad(safe_sqrt)))


# ------------------------------------------------------------------ one-dimensional integration
# name -> (integrand(x, p), integral(a, b, p), nice parameter range)
def _F_poly(x, p):
    return p[0] + x * (p[1] + x * (p[2] + x * p[3]))


def _P_poly(a, b, p):
    return sum(p[i] * (b ** (i + 1) - a ** (i + 1)) / (i + 1) for i in range(4))


def _A_poly(a, b, p):
    """The size of the terms."""
    m = max(abs(a), abs(b))
    return sum(abs(p[i]) * m ** (i + 1) for i in range(4))


FAMS = {
    "poly": (_F_poly, _P_poly),
    # x -> p0 exp(-((x - p1)/w)^2/2)
    "gauss": (lambda x, p: p[0] * jnp.exp(-0.5 * ((x - p[1]) / (0.5 + jnp.abs(p[2]))) ** 2),
              lambda a, b, p: p[0] * (0.5 + abs(p[2])) * math.sqrt(2 * math.pi) * (sp.ndtr((b - p[1]) / (0.5 + abs(p[2]))) - sp.ndtr((a - p[1]) / (0.5 + abs(p[2]))))),
    "sech": (lambda x, p: p[0] / jnp.cosh(jnp.clip(x - p[1], -300, 300)) ** 2 + p[2] / jnp.cosh(jnp.clip(0.5 * (x - p[3]), -300, 300)) ** 2,
             lambda a, b, p: p[0] * (math.tanh(b - p[1]) - math.tanh(a - p[1])) + 2 * p[2] * (math.tanh(0.5 * (b - p[3])) - math.tanh(0.5 * (a - p[3])))),
    "cauchy": (lambda x, p: p[0] / (1 + (x - p[1]) ** 2), lambda a, b, p: p[0] * (math.atan(b - p[1]) - math.atan(a - p[1]))),
    "cos": (lambda x, p: p[0] * jnp.cos(p[1] * x) + p[2] * jnp.sin(p[3] * x),
            lambda a, b, p: p[0] * _ic(p[1], a, b) + p[2] * _is(p[3], a, b)),
}


def _ic(w, a, b):
    return (b - a) if w == 0 else (math.sin(w * b) - math.sin(w * a)) / w


def _is(w, a, b):
    return 0.0 if w == 0 else (math.cos(w * a) - math.cos(w * b)) / w


_NAMES = sorted(FAMS)


@jax.jit
def _run(fam, p, a, b, re, ae):
    # one integrand for all families, so that it is compiled once
    return JG.integ.int1d(lambda x: jnp.select([fam == i for i in range(len(_NAMES))], [FAMS[k][0](x, p) for k in _NAMES]), a, b, re, ae)


@st.composite
def intcase(draw):
    fam = draw(st.sampled_from(sorted(FAMS)))
    p = [draw(S.fl(-3, 3, 4)) for _ in range(4)]
    finite = S.fl(-12, 12, 4)
    if fam in ("poly", "cos"):
        a, b = draw(finite), draw(finite)
    else:
        a = draw(st.one_of(finite, finite, st.just("-inf")))
        b = draw(st.one_of(finite, finite, st.just("inf")))
    return dict(fam=fam, p=p, a=a, b=b, re=draw(st.sampled_from([None, 1e-4, 1e-9])), ae=draw(st.sampled_from([None, 1e-8, 1e-12])))


def _lim(v):
    return {"inf": math.inf, "-inf": -math.inf}.get(v, v)


def integral(case):
    fam, p = case["fam"], case["p"]
    a, b = _lim(case["a"]), _lim(case["b"])
    re, ae = case["re"] or 1e-6, case["ae"] or 1e-12
    want = FAMS[fam][1](a, b, p)
    try:
        got = float(_run(_NAMES.index(fam), jnp.array(p), float(a), float(b), re, ae))
    except Exception as e:
        if "failed to converge" in str(e):
            raise Violation("int1d(%s, %s, %s) did not converge; the integral is %r" % (fam, a, b, want))
        raise
    size = _A_poly(a, b, p) if fam == "poly" else 10.0 * (abs(p[0]) + abs(p[2]))
    close("int1d of %s" % fam, got, want, 20 * re, 20 * ae + 1e-13 * size)
    if math.isinf(a) or math.isinf(b):
        label("infinite limit")
    if b < a:
        label("reversed limits")
    return a != b and any(p)


@st.composite
def plaincase(draw):
    """The public, uncompiled call (a function, and a pure Python function called back)."""
    return dict(deg=draw(st.integers(0, 5)), c=[draw(S.fl(-3, 3, 3)) for _ in range(6)], a=draw(S.fl(-9, 9, 3)), b=draw(S.fl(-9, 9, 3)),
                tol=draw(st.booleans()), cb=draw(st.booleans()))


def intplain(case):
    c = case["c"][: case["deg"] + 1]

    def func(x):
        return sum((ci * x**i for i, ci in enumerate(c)), 0.0 * x)

    a, b = case["a"], case["b"]
    kw = dict(rel_err=1e-8, abs_err=1e-13) if case["tol"] else {}
    if case["cb"]:
        kw["_wrap_as_callback"] = True
    got = float(JG.integ.int1d(func, a, b, **kw))
    want = sum(ci * (b ** (i + 1) - a ** (i + 1)) / (i + 1) for i, ci in enumerate(c))
    size = sum(abs(ci) * max(abs(a), abs(b)) ** (i + 1) for i, ci in enumerate(c))
    close("int1d", got, want, 1e-7, 1e-11 + 1e-13 * size)
    close("int1d against GalSim", got, RG.integ.int1d(func, a, b), 1e-6, 1e-11 + 1e-13 * size)
    return a != b and any(c)


def farlimits(case):
    """Both limits of a finite interval far from zero (a known finding)."""
    a, b = case
    got = float(JG.integ.int1d(lambda x: 1.0 / (1.0 + x * x), float(a), float(b)))
    want = math.atan2(b - a, 1.0 + a * b)
    close("int1d of 1/(1+x^2) from %s to %s" % (a, b), got, want, 1e-5)
    return True


@st.composite
def quadcase(draw):
    n = draw(st.integers(0, 9))
    return dict(order=draw(st.sampled_from([5, 8, 10, 20, 40])), c=[draw(S.fl(-2, 2, 3)) for _ in range(n + 1)],
                a=draw(st.lists(S.fl(-2, 2, 3), min_size=3, max_size=3)), w=draw(st.lists(S.fl(0, 3, 3), min_size=3, max_size=3)), one=draw(st.booleans()))


def quadrature(case):
    c = case["c"]
    q = ClenshawCurtisQuad.init(case["order"])
    a = np.array(case["a"])
    b = a + np.array(case["w"])
    if case["one"]:
        a, b = a[0], b[0]
    # Clenshaw-Curtis with 2N+1 points is exact for polynomials of degree 2N and less
    got = quad_integral(lambda x: jnp.polyval(jnp.array(c[::-1]), x), a, b, q)
    want = sum(ci * (b ** (i + 1) - a ** (i + 1)) / (i + 1) for i, ci in enumerate(c))
    close("quad_integral, order %d" % case["order"], got, want, 1e-11, 1e-10)
    close("weights", np.sum(np.asarray(q.absw)), 1.0, 1e-12)
    got = quad_integral(lambda x: jnp.exp(-x * x), a, b, q)
    if case["order"] >= 20:
        close("quad_integral of a Gaussian", got, 0.5 * math.sqrt(math.pi) * (sp.erf(b) - sp.erf(a)), 1e-9, 1e-9)
    return bool(np.any(a != b)) and any(c)


# ------------------------------------------------------------------ root finding
def _froot(kind, r, k, x):
    if kind == 0:
        return k * (x - r)
    if kind == 1:
        return k * ((x - r) ** 3 + 0.1 * (x - r))
    return k * (jnp.exp(0.3 * (x - r)) - 1.0)


@st.composite
def rootcase(draw):
    r = draw(st.one_of(S.fl(-50, 50, 5), st.integers(-8, 8).map(float), st.integers(-64, 64).map(lambda n: n / 8.0)))
    lo = draw(st.one_of(S.fl(0, 60, 4), st.integers(0, 8).map(float), st.just(0.0)))
    hi = draw(st.one_of(S.fl(0, 60, 4), st.integers(0, 8).map(float), st.just(lo)))
    return dict(kind=draw(st.integers(0, 2)), r=r, k=draw(st.sampled_from([1.0, -1.0, 0.01, 7.0])), lo=lo, hi=hi)


def root(case):
    r, lo, hi = case["r"], case["r"] - case["lo"], case["r"] + case["hi"]
    if hi <= lo:
        hi = r + 1.0
    f = jax.tree_util.Partial(_FK[case["kind"]], jnp.float64(r), jnp.float64(case["k"]))
    got = float(U.bisect_for_root(f, lo, hi))
    close("root of kind %d in [%s, %s]" % (case["kind"], lo, hi), got, r, 1e-12, 1e-12)
    if case["lo"] == 0 or case["hi"] == 0:
        label("root at an end")
    if case["lo"] == case["hi"]:
        label("root in the middle")
    return True


_FK = [lambda r, k, x, kind=kind: _froot(kind, r, k, x) for kind in range(3)]


# ------------------------------------------------------------------ Akima splines
def akima_ref(x, y):
    """Akima's (1970) slopes with the end rule of the cited article, point by point."""
    n = len(x)
    m = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
    s = []
    for i in range(n):
        if i == 0:
            s.append(m[0])
        elif i == 1:
            s.append((m[0] + m[1]) / 2)
        elif i == n - 2:
            s.append((m[n - 3] + m[n - 2]) / 2)
        elif i == n - 1:
            s.append(m[n - 2])
        else:
            w1, w2 = abs(m[i + 1] - m[i]), abs(m[i - 1] - m[i - 2])
            s.append((m[i - 1] + m[i]) / 2 if w1 + w2 < 1e-12 else (w1 * m[i - 1] + w2 * m[i]) / (w1 + w2))
    return m, s


def akima_eval(x, y, t):
    m, s = akima_ref(x, y)
    if t < x[0] or t > x[-1]:
        return 0.0
    i = min(max(int(np.searchsorted(x, t, side="right")) - 1, 0), len(x) - 2)
    h, d = x[i + 1] - x[i], t - x[i]
    return y[i] + d * (s[i] + d * ((3 * m[i] - 2 * s[i] - s[i + 1]) / h + d * (s[i] + s[i + 1] - 2 * m[i]) / h**2))


@st.composite
def akimacase(draw):
    n = draw(st.sampled_from([5, 6, 7, 9, 20]))
    even = draw(st.booleans())
    kind = draw(st.sampled_from(["any", "any", "int", "line", "steps", "kinks", "kinks"]))
    if kind in ("any", "kinks"):
        y = [draw(S.fl(-3, 3, 4)) for _ in range(n)]
    elif kind == "int":
        y = [float(draw(st.integers(-3, 3))) for _ in range(n)]
    elif kind == "line":
        a, b = draw(S.fl(-2, 2, 3)), draw(S.fl(-2, 2, 3))
        y = None
    else:
        y = [float(draw(st.integers(0, 1))) for _ in range(n)]
    x0 = draw(S.fl(-5, 5, 3))
    if even:
        h = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))
        x = [x0 + i * h for i in range(n)]
    else:
        x = [x0]
        for _ in range(n - 1):
            x.append(x[-1] + draw(S.fl(0.1, 2, 3)))
    if y is None:
        y = [a + b * t for t in x]
    if kind == "kinks":
        # straight stretches, in numbers that floating point keeps exactly: both weights vanish at a kink
        x = [0.25 * round(4 * x0)]
        y = [float(draw(st.integers(-3, 3)))]
        h = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))
        m, left = 0, 0
        for _ in range(n - 1):
            if not left:
                m, left = draw(st.integers(-3, 3)), draw(st.integers(2, 4))
            left -= 1
            x.append(x[-1] + (h if even else draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))))
            y.append(y[-1] + m * (x[-1] - x[-2]))
    return dict(kind=kind, even=even, x=x, y=y, jax=draw(st.booleans()), t=draw(st.lists(S.fl(-0.1, 1.1, 5), min_size=12, max_size=12)))


def akima(case):
    x, y = np.array(case["x"]), np.array(case["y"])
    n = len(x)
    if case["kind"] == "any":
        m, _ = akima_ref(x, y)
        if any(0 < abs(m[i + 1] - m[i]) + abs(m[i - 1] - m[i - 2]) < 1e-9 for i in range(2, n - 2)):
            raise Inconclusive("weights next to the threshold")
    co = akima_interp_coeffs(x, y, use_jax=case["jax"])
    ends = np.array([x[0], x[-1]])
    mids = 0.5 * (x[1:] + x[:-1])
    # near both ends as well
    pts = np.concatenate([x[0] + (x[-1] - x[0]) * np.array(case["t"]), [mids[0], mids[1], mids[-2], mids[-1]], ends])
    want = [akima_eval(x, y, float(t)) for t in pts]
    tol = 1e-7 if case["kind"] == "line" else 1e-10
    for fixed in [False] + ([True] if case["even"] else []):
        got = np.asarray(akima_interp(pts, x, y, co, fixed_spacing=fixed))
        close("akima, %d knots, fixed_spacing=%s" % (n, fixed), got, want, tol, tol)
        close("akima at its knots, fixed_spacing=%s" % fixed, np.asarray(akima_interp(x, x, y, co, fixed_spacing=fixed)), y, 1e-10, 1e-10)
    # the rule has no direction
    cr = akima_interp_coeffs(-x[::-1], y[::-1], use_jax=case["jax"])
    mir = np.asarray(akima_interp(-pts, -x[::-1], y[::-1], cr))
    close("mirrored akima", mir, np.asarray(akima_interp(pts, x, y, co)), tol, tol)
    if case["kind"] == "line":
        inside = (pts >= x[0]) & (pts <= x[-1])
        b = (y[-1] - y[0]) / (x[-1] - x[0])
        close("a straight line", got[inside], y[0] + b * (pts[inside] - x[0]), 1e-9, 1e-9)
    return len(set(case["y"])) > 1


# ------------------------------------------------------------------ polynomials
@st.composite
def hornercase(draw):
    kind = draw(st.sampled_from(["float", "float", "int", "complex", "zeros"]))
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 5))
    tri = draw(st.booleans())
    if tri:
        m = n = max(2, min(n, 5))
    val = {"float": S.fl(-2, 2, 4), "int": st.integers(-4, 4), "complex": S.fl(-2, 2, 4), "zeros": st.sampled_from([0.0, 0.0, 1.5])}[kind]
    return dict(kind=kind, tri=tri, c=[draw(val) for _ in range(n)], c2=[[draw(val) for _ in range(m)] for _ in range(n)],
                x=draw(st.lists(val, min_size=6, max_size=6)), y=draw(st.lists(val, min_size=6, max_size=6)), shape=draw(st.sampled_from(["flat", "2d", "scalar"])),
                dtype=draw(st.sampled_from([None, None, "float", "complex"])), ci=draw(st.lists(S.fl(-1, 1, 2), min_size=6, max_size=6)))


def _exact(c, x):
    """Exactly, then rounded once."""
    return float(sum(Fraction(ci) * Fraction(x) ** i for i, ci in enumerate(c)))


def polynomials(case):
    kind = case["kind"]
    x, y, c, c2 = np.array(case["x"]), np.array(case["y"]), np.array(case["c"]), np.array(case["c2"])
    if kind == "complex":
        x = x + 1j * np.array(case["ci"])
        y = y + 0j
    if case["shape"] == "2d":
        x, y = x.reshape(2, 3), y.reshape(2, 3)
    elif case["shape"] == "scalar":
        x, y = x[0], y[0]
    dt = {None: None, "float": float, "complex": complex}[case["dtype"]]
    if kind == "complex" and dt is float:
        dt = complex
    kw = {} if dt is None else dict(dtype=dt)
    got = np.asarray(JG.utilities.horner(x, c, **kw))
    want = np.zeros(np.shape(x), dtype=np.result_type(x, c))
    for ci in c[::-1]:
        want = want * x + ci
    close("horner", got, want, 1e-12, 1e-11)
    if case["shape"] == "flat" and kind != "complex":
        close("horner, exactly", got, [_exact(case["c"], v) for v in case["x"]], 1e-12, 1e-11)
    equal("type of horner's result", got.dtype, np.dtype(dt or np.result_type(x, c)))
    tri = case["tri"] and c2.shape[0] == c2.shape[1]
    got = np.asarray(JG.utilities.horner2d(x, y, c2, triangle=tri, **kw))
    want = np.zeros(np.shape(x), dtype=np.result_type(x, c2, 1.0))
    for i in range(c2.shape[0]):
        for j in range(c2.shape[1]):
            if not tri or i + j < c2.shape[0]:
                want = want + c2[i, j] * (x**i) * (y**j)
    close("horner2d, triangle=%s" % tri, got, want, 1e-12, 1e-11)
    if not tri:
        close("horner2d is a horner of horners", got, [_x for _x in [np.asarray(sum((JG.utilities.horner(y, row) * x**i for i, row in enumerate(c2)), 0.0 * x))]][0], 1e-12, 1e-11)
    return bool(np.any(c) and np.any(x))


# ------------------------------------------------------------------ shapes and moments
@st.composite
def momentcase(draw):
    return dict(n=draw(st.integers(1, 9)), m=draw(st.integers(1, 9)), x0=draw(st.integers(-20, 20)), y0=draw(st.integers(-20, 20)),
                seed=draw(S.seeds), dtype=draw(st.sampled_from(["D", "F", "I", "S", "UI", "US"])), neg=draw(st.booleans()),
                origin=draw(st.sampled_from([None, "d", "i", "center"])), ox=draw(S.fl(-9, 9, 3)), oy=draw(S.fl(-9, 9, 3)),
                g=draw(st.sampled_from([0.0, 1e-9, 1e-4, 0.1, 0.5, 0.9, 0.999])), th=draw(S.fl(-3.2, 3.2, 4)))


def moments(case):
    rng = np.random.default_rng(case["seed"])
    a = rng.uniform(1, 50, size=(case["m"], case["n"]))
    if case["neg"] and case["dtype"] not in ("UI", "US"):
        a[rng.uniform(size=a.shape) < 0.2] *= -0.3
    dt = S.DT[case["dtype"]] if hasattr(S, "DT") else {"D": np.float64, "F": np.float32, "I": np.int32, "S": np.int16, "UI": np.uint32, "US": np.uint16}[case["dtype"]]
    a = a.astype(dt)
    ji, ri = JG.Image(jnp.asarray(a), xmin=case["x0"], ymin=case["y0"]), RG.Image(a, xmin=case["x0"], ymin=case["y0"])
    kj, kr = {}, {}
    if case["origin"] == "d":
        kj["origin"], kr["origin"] = JG.PositionD(case["ox"], case["oy"]), RG.PositionD(case["ox"], case["oy"])
    elif case["origin"] == "i":
        kj["origin"], kr["origin"] = JG.PositionI(int(case["ox"]), int(case["oy"])), RG.PositionI(int(case["ox"]), int(case["oy"]))
    elif case["origin"] == "center":
        kj["origin"], kr["origin"] = ji.true_center, ri.true_center
    j, r = JG.utilities.unweighted_moments(ji, **kj), RG.utilities.unweighted_moments(ri, **kr)
    equal("moments", sorted(j), sorted(r))
    for k in r:
        close(k, j[k], r[k], 1e-9, 1e-8)
    if case["n"] > 1 and case["m"] > 1:
        for args in ((j, r), (ji, ri)):
            sj, sr = JG.utilities.unweighted_shape(args[0]), RG.utilities.unweighted_shape(args[1])
            equal("shape", sorted(sj), sorted(sr))
            for k in sr:
                close(k, sj[k], sr[k], 1e-8, 1e-8)
    g1, g2 = case["g"] * math.cos(case["th"]), case["g"] * math.sin(case["th"])
    e = JG.utilities.g1g2_to_e1e2(g1, g2)
    close("g1g2_to_e1e2", np.array([float(v) for v in e]), np.array(RG.utilities.g1g2_to_e1e2(g1, g2)), 1e-12, 1e-15)
    sh = JG.Shear(e1=float(e[0]), e2=float(e[1]))
    close("g1g2_to_e1e2 and back", [float(sh.g1), float(sh.g2)], [g1, g2], 1e-7, 1e-9)
    return a.size > 1


# ------------------------------------------------------------------ argument parsing and casts
@st.composite
def posargcase(draw):
    v = st.one_of(st.integers(-9, 9), S.fl(-9, 9, 2))
    return dict(form=draw(st.sampled_from(["xy", "kw", "tuple", "list", "array", "posd", "posi", "none", "str", "three", "extra", "mixed", "halfkw"])),
                x=draw(v), y=draw(v), integer=draw(st.booleans()), others=draw(st.integers(0, 2)), oform=draw(st.booleans()))


def _parse(G, case):
    x, y, form = case["x"], case["y"], case["form"]
    if case["integer"]:
        # the reference truncates fractions here, this library refuses them
        x, y = float(int(x)), int(y)
    kw, args = {}, ()
    if form == "xy":
        args = (x, y)
    elif form == "kw":
        kw = dict(x=x, y=y)
    elif form == "tuple":
        args = ((x, y),)
    elif form == "list":
        args = ([x, y],)
    elif form == "array":
        args = (np.array([x, y]),)
    elif form == "posd":
        args = (G.PositionD(x, y),)
    elif form == "posi":
        args = (G.PositionI(int(x), int(y)),)
    elif form == "str":
        args = (5,)
    elif form == "three":
        args = (x, y, 7, 8, 9)
    elif form == "extra":
        args, kw = (x, y), dict(z=3)
    elif form == "mixed":
        args, kw = (x,), dict(y=y)
    elif form == "halfkw":
        kw = dict(x=x)
    names = ["first", "second"][: case["others"]]
    if names and form not in ("three",):
        if case["oform"] and args:
            args = args + tuple(range(101, 101 + len(names)))
        else:
            kw.update({n: 101 + i for i, n in enumerate(names)})
    r = G.utilities.parse_pos_args(args, kw, "x", "y", integer=case["integer"], others=list(names))
    rest = ()
    if isinstance(r, tuple):
        r, rest = r[0], r[1:]
    return type(r).__name__, float(r.x), float(r.y), tuple(rest)


def posargs(case):
    out = []
    for G in (RG, JG):
        try:
            out.append(_parse(G, case))
        except (TypeError, ValueError, KeyError) as e:
            out.append("error")
    equal("parse_pos_args", out[1], out[0])
    return out[0] != "error"


@st.composite
def castcase(draw):
    return dict(v=draw(st.one_of(st.integers(-(2**40), 2**40), S.fl(-1e6, 1e6, 3), st.integers(-1000, 1000).map(float), st.sampled_from([0.5, -0.0, 1e15]))),
                form=draw(st.sampled_from(["py", "np", "jnp", "0d", "np1", "jnp1", "np32"])))


def casts(case):
    v = case["v"]
    x = {"py": lambda: v, "np": lambda: np.asarray(v)[()], "jnp": lambda: jnp.asarray(v), "0d": lambda: jnp.asarray([v])[0],
         "np1": lambda: np.array([v, v]), "jnp1": lambda: jnp.array([v, v]), "np32": lambda: np.float32(v)}[case["form"]]()
    ref = np.asarray(np.float32(v) if case["form"] == "np32" else v)
    if case["form"] in ("np1", "jnp1"):
        ref = np.array([v, v])
    got = np.asarray(U.cast_to_float(x))
    close("cast_to_float", got, ref.astype(float), 1e-15)
    equal("kind", got.dtype.kind, "f")
    got = np.asarray(U.cast_to_int(x))
    equal("kind", got.dtype.kind, "i")
    close("cast_to_int", got, np.trunc(ref.astype(float)), 1e-15)
    whole = bool(np.all(ref == np.trunc(ref)))
    try:
        got = np.asarray(jax.block_until_ready(U.check_is_int_then_cast(x, "not whole")))
        ok = True
    except Exception as e:
        if "not whole" not in str(e):
            raise
        ok = False
    equal("check_is_int_then_cast accepts %r" % (v,), ok, whole)
    if ok:
        equal("kind", got.dtype.kind, "i")
        close("check_is_int_then_cast", got.astype(float), ref.astype(float), 1e-15)
    return True


TESTS = [
    Test("besselk", kvcase, besselk, 160, 8000, "some value in range"),
    Test("j0si", xcase, j0si, 200, 12000, "always"),
    Test("integral", intcase, integral, 300, 12000, "a non-empty interval and a non-zero integrand", shards=2),
    Test("intplain", plaincase, intplain, 8, 240, "a non-empty interval and a non-zero integrand", cost=60.0, shards=4),
    Test("quadrature", quadcase, quadrature, 48, 1200, "a non-empty interval and a non-zero integrand", cost=6.0),
    Test("root", rootcase, root, 250, 8000, "a bracket"),
    Test("akima", akimacase, akima, 300, 10000, "values that are not all the same"),
    Test("polynomials", hornercase, polynomials, 250, 6000, "non-zero coefficients and points", cost=2.0),
    Test("moments", momentcase, moments, 120, 4000, "more than one pixel"),
    Test("posargs", posargcase, posargs, 200, 4000, "accepted arguments"),
    Test("casts", castcase, casts, 250, 6000, "always"),
    Test("farlimits", lambda: st.tuples(st.just(20000), st.just(30000)), farlimits, 0, 0, "always"),
]
