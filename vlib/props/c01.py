"""C01: profile surface brightness and Fourier amplitudes equal the reference."""

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, label
from vlib.specs import JG, RG

# the reference cuts Fourier tails at these accuracies; ours is an exact formula
TIGHT = dict(kvalue_accuracy=1e-12, maxk_threshold=1e-3)

pt = st.tuples(S.fl(-6, 6, 4), S.fl(-6, 6, 4)).map(list)


@st.composite
def xcases(draw):
    t = draw(S.trees(S.leaves([k for k in S.LEAVES if k != "DeltaFunction"]), 2, conv=False))
    return dict(tree=t, pts=draw(st.lists(pt, min_size=3, max_size=3)))


@st.composite
def kcases(draw):
    t = draw(S.trees(depth=2, deconv=True))
    return dict(tree=t, pts=draw(st.lists(pt, min_size=3, max_size=3)))


def ref_with_spread(fn, x, y):
    """Reference value and how much it moves under a 1e-9 nudge of the point
    (hard edges, cusps)."""
    v = fn(x, y)
    d = 1e-9 * (1 + abs(x) + abs(y))
    sp = 0.0
    for ax, ay in ((d, d), (d, -d), (-d, d), (-d, -d)):
        sp = max(sp, abs(fn(x + ax, y + ay) - v))
    return v, sp


def scale_of(tree, conv=False):
    return 1.0


def check(what, got, want, spread, rtol, atol):
    got = complex(np.asarray(got))
    if np.asarray(got).shape != ():
        raise Violation("%s: not a scalar" % what)
    want = complex(want)
    if not np.isfinite(want):
        if np.isfinite(got):
            raise Violation("%s: got %r, reference %r" % (what, got, want))
        return
    tol = atol + rtol * abs(want) + 4 * spread
    if not abs(got - want) <= tol:
        raise Violation(
            "%s: got %r, reference %r, differ by %g (allowed %g)"
            % (what, got, want, abs(got - want), tol)
        )


def xvalue(case):
    t = case["tree"]
    j = S.build(t, JG)
    r = S.build(t, RG)
    kinds = S.leaf_kinds(t)
    rtol = 1e-5 if "Spergel" in kinds else 1e-8
    # cancellation between components: allow relative to the largest amplitude
    amp = max_amp(t)
    nz = 0
    for i, (x, y) in enumerate(case["pts"]):
        want, sp = ref_with_spread(r.xValue, x, y)
        form = i % 2
        got = j.xValue(x, y) if form else j.xValue(JG.PositionD(x, y))
        check("xValue(%r,%r)" % (x, y), got, want, sp, rtol, 1e-12 * amp)
        nz += abs(want) > 1e-9 * amp
    for k in kinds:
        label(k)
    return nz > 0


def max_amp(t):
    """A crude upper scale for the amplitudes in a tree (sum of |max_sb|)."""
    o = S.build(t, RG)
    return comp_amp(o)


def comp_amp(o):
    if isinstance(o, (RG.Sum,)):
        return sum(comp_amp(x) for x in o.obj_list)
    if isinstance(o, RG.Transformation):
        return comp_amp(o.original) * abs(o.flux_ratio)
    if isinstance(o, RG.Spergel) and o.nu <= 0:
        return abs(o.xValue(0, 1e-3 * o.scale_radius))
    return abs(o.max_sb)


def comp_flux(o):
    if isinstance(o, RG.Sum):
        return sum(comp_flux(x) for x in o.obj_list)
    if isinstance(o, RG.Convolution):
        return float(np.prod([comp_flux(x) for x in o.obj_list]))
    if isinstance(o, RG.Transformation):
        return comp_flux(o.original) * abs(o.flux_ratio) * abs(np.linalg.det(o.jac))
    return abs(o.flux)


def kvalue(case):
    t = case["tree"]
    j = S.build(t, JG)
    kinds = S.leaf_kinds(t)
    r = S.build(t, RG, TIGHT)
    dec = S.has(t, "deconv")
    if dec:
        r = S.build(t, RG, dict(TIGHT, kvalue_accuracy=1e-5))
        rd = S.build(t, RG)
    fl = comp_flux(r)
    rtol, atol = 1e-8, 1e-9 * fl
    if "Moffat" in kinds:
        rtol, atol = 3e-4, 3e-5 * fl
    if dec:
        rtol = max(rtol, 1e-3)
    nz = 0
    for i, (x, y) in enumerate(case["pts"]):
        want, sp = ref_with_spread(r.kValue, x, y)
        if dec:
            w2 = rd.kValue(x, y)
            if abs(w2 - want) > 1e-4 * abs(want):
                raise Inconclusive("deconvolution cut-off")
        form = i % 2
        got = j.kValue(x, y) if form else j.kValue(JG.PositionD(x, y))
        check("kValue(%r,%r)" % (x, y), got, want, sp, rtol, atol)
        nz += abs(want) > 10 * atol
    for k in kinds:
        label(k)
    if dec:
        label("deconv")
    if S.has(t, "conv"):
        label("conv")
    return nz > 0


# ------------------------------------------------- radial profiles of one leaf
def radcases():
    return st.fixed_dictionaries(dict(
        leaf=S.leaves([k for k in S.LEAVES if k not in ("DeltaFunction", "Box", "Pixel")],
                      size=st.one_of(S.sizes, S.fl(1e-3, 300.0)), moffat_beta=(1.5, 12.0),
                      spergel_nu=(-0.84, 3.99)),
        lr=st.lists(S.fl(-13.0, 1.5, 4), min_size=4, max_size=4),
        th=S.fl(0, 6.3, 3),
    ))


def radial(case):
    spec = case["leaf"]
    k = spec["leaf"]
    j = S.build(spec, JG)
    r = S.build(spec, RG, dict(kvalue_accuracy=1e-12))
    rx = S.build(spec, RG)
    size = [v for n, v in spec["p"].items() if n not in ("flux", "beta", "nu")][0]
    c, s = np.cos(case["th"]), np.sin(case["th"])
    nz = 0
    for lr in case["lr"]:
        rr = size * 10.0**lr
        x, y = rr * c, rr * s
        want = rx.xValue(x, y)
        spread = max(abs(rx.xValue(x * e, y * e) - want) for e in (1 - 1e-9, 1 + 1e-9))
        rtol = 1e-9
        if k == "Spergel":
            # tabulated half-light radius; series below r = 1e-10 r0
            rtol = 3e-6 if rr > 1e-8 * size else 1e-4
        check("xValue at r=%g" % rr, j.xValue(x, y), want, spread, rtol, 1e-14 * abs(want))
        if not (k == "Spergel" and "half_light_radius" in spec["p"]):
            kk = 10.0**lr / size
            kx, ky = kk * c, kk * s
            want = r.kValue(kx, ky)
            atol = 3e-5 * abs(r.flux) if k == "Moffat" else 0.0
            # the reference cuts at 1e-12 of the flux
            check("kValue at k=%g" % kk, j.kValue(kx, ky), want, 0.0,
                  1e-4 if k == "Moffat" else 1e-9, atol + 3e-12 * abs(r.flux))
        nz += lr > -6
    label(k)
    return nz > 0


# ------------------------------------------------------------------ exactly on a hard edge
# all numbers are dyadic, so that both libraries compute the position of the edge exactly
DY = st.integers(1, 40).map(lambda n: n / 8.0)


@st.composite
def edgecases(draw):
    k = draw(st.sampled_from(["Box", "Box", "Pixel"]))
    p = dict(width=draw(DY), height=draw(DY)) if k == "Box" else dict(scale=draw(DY))
    return dict(kind=k, p=p, flux=draw(st.sampled_from([1.0, 3.0, -2.0])),
                jac=draw(st.sampled_from([None, None, [2.0, 0.0, 0.0, 0.5], [0.0, 1.0, -1.0, 0.0], [-4.0, 0.0, 0.0, 1.0]])),
                dx=draw(st.sampled_from([None, None, [0.5, -1.25], [-3.0, 0.125]])),
                at=draw(st.lists(st.tuples(st.sampled_from([-1, 1]), st.sampled_from([-1, 1]), st.integers(0, 5),
                                           st.sampled_from([0.0, 0.5, 1.0, 1.0, 1.125])).map(list),
                                 min_size=3, max_size=3)))


def edges(case):
    def mk(G):
        o = getattr(G, case["kind"])(flux=case["flux"], **case["p"])
        if case["jac"]:
            o = o.transform(*case["jac"])
        return o.shift(*case["dx"]) if case["dx"] else o

    j, r = mk(JG), mk(RG)
    p, hit = case["p"], False
    for sx, sy, how, t in case["at"]:
        w = p.get("width", p.get("scale")) / 2
        h = p.get("height", p.get("scale")) / 2
        x, y = [(w, 0.0), (0.0, h), (w, h), (w, t * h), (t * w, h), (t * w, t * h)][how]
        x, y = sx * x, sy * y
        if case["jac"]:
            a, b, c, d = case["jac"]
            x, y = a * x + b * y, c * x + d * y
        if case["dx"]:
            x, y = x + case["dx"][0], y + case["dx"][1]
        got, want = float(j.xValue(x, y)), float(r.xValue(x, y))
        if abs(got - want) > 1e-9 * abs(want) + 1e-13:
            raise Violation("xValue(%r, %r), at or near a hard edge: got %r, reference %r" % (x, y, got, want))
        hit = hit or want == 0.0
    label(case["kind"])
    return hit


TESTS = [
    Test("edges", edgecases, edges, 200, 8000, "a point on or beyond the edge", cost=0.3),
    Test("radial", radcases, radial, 600, 30000,
         "at least one radius above 1e-6 of the size"),
    Test("xvalue", xcases, xvalue, 400, 20000,
         "at least one point where the reference value is not negligible"),
    Test("kvalue", kcases, kvalue, 400, 20000,
         "at least one point where the reference value is not negligible", cost=1.2),
]
