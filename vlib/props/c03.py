"""C03: drawn images equal the reference's."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, label
from vlib.specs import JG, RG

SHAPES = [(16, 16), (17, 17), (16, 21), (25, 18), (32, 32), (9, 24)]
ORIGINS = [(1, 1), (0, 0), (-7, -8), (5, -3), (-20, 11)]
DRAW_LEAF = dict(
    size=S.fl(0.4, 2.0, 3), moffat_beta=(2.3, 5.0), spergel_nu=(0.1, 3.0)
)


@st.composite
def small_trees(draw, conv=True, depth=2):
    leaf = S.leaves([k for k in S.LEAVES if k != "DeltaFunction"], **DRAW_LEAF)
    return draw(S.trees(leaf, depth, conv=conv, maxops=2))


@st.composite
def cases(draw, methods=("auto", "fft", "no_pixel", "sb")):
    method = draw(st.sampled_from(methods))
    d = dict(method=method, tree=draw(small_trees(depth=draw(st.sampled_from([0, 1, 1, 2])))))
    if draw(st.integers(0, 9)) == 0 and method in ("auto", "fft"):
        # a point source has no scale of its own: only convolved
        delta = {"on": {"leaf": "DeltaFunction", "p": {"flux": draw(S.fluxes)}},
                 "ops": draw(st.lists(S.ops(("shift", "mul", "shear")), max_size=2))}
        d["tree"] = {"conv": [delta, draw(S.leaves(("Gaussian", "Moffat"), **DRAW_LEAF))]}
    how = draw(st.sampled_from(["image", "image", "nxny", "bounds", "none", "undef"]))
    d["how"] = how
    d["shape"] = draw(st.sampled_from(SHAPES))
    d["org"] = draw(st.sampled_from(ORIGINS))
    d["dtype"] = draw(st.sampled_from(["D", "D", "F", "S", "I", "US", "UI"]))
    # the coordinate system: argument, image attribute, or none (Nyquist)
    local = ("PixelScale", "ShearWCS", "JacobianWCS")
    if how in ("image", "nxny", "bounds"):
        kinds = local + ("OffsetWCS", "OffsetShearWCS", "AffineTransform", "Tan")
    else:
        kinds = local + ("OffsetWCS", "AffineTransform")
    d["wcs_on"] = draw(st.sampled_from(["arg", "image", "scale", "none"]))
    d["wcs"] = draw(S.wcses(kinds, scale=(0.2, 0.5)))
    d["iwcs"] = draw(S.wcses(local, scale=(0.2, 0.5)))
    if draw(st.booleans()):
        d["offset"] = [draw(S.fl(-2, 2, 3)), draw(S.fl(-2, 2, 3))]
        d["offpos"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        d["center"] = [draw(S.fl(-2, 2, 3)), draw(S.fl(-2, 2, 3))]
    d["true_center"] = draw(st.booleans())
    d["area"], d["exptime"], d["gain"] = (
        draw(st.one_of(S.near(1.0), S.fl(0.3, 4.0, 3))) for _ in range(3)
    )
    d["add"] = how == "image" and draw(st.booleans())
    d["fill"] = draw(st.integers(0, 40))
    return d


def draw_with(case, G, gsp=None, doff=(0.0, 0.0), setup_only=False):
    prof = S.build(case["tree"], G, gsp)
    how, dt = case["how"], S.DTYPES[case["dtype"]]
    if case["dtype"] in ("S", "I", "US", "UI"):
        prof = prof * 300.0  # make integer pixels informative
    nx, ny = case["shape"]
    x0, y0 = case["org"]
    kw = dict(method=case["method"], use_true_center=case["true_center"], area=case["area"],
              exptime=case["exptime"], gain=case["gain"])
    bounds = G.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1)
    image = None
    if how == "image":
        image = G.Image(bounds, dtype=dt, init_value=case["fill"])
        image.wcs = S.make_wcs(case["iwcs"], G)
        kw["image"] = image
        kw["add_to_image"] = case["add"]
        if case["wcs_on"] == "image":
            image.wcs = S.make_wcs(case["wcs"], G)
    elif how == "undef":
        image = G.Image(dtype=dt)
        kw["image"] = image
        if case["wcs_on"] == "image":
            image.wcs = S.make_wcs(case["wcs"], G)
    elif how == "nxny":
        kw.update(nx=nx, ny=ny, dtype=dt)
    elif how == "bounds":
        kw.update(bounds=bounds, dtype=dt)
    else:
        kw.update(dtype=dt)
    if case["wcs_on"] == "arg":
        kw["wcs"] = S.make_wcs(case["wcs"], G)
    elif case["wcs_on"] == "scale":
        kw["scale"] = case["iwcs"].get("scale", 0.3)
    off = case.get("offset")
    if off is not None or doff != (0.0, 0.0):
        o = off or [0.0, 0.0]
        o = (o[0] + doff[0], o[1] + doff[1])
        kw["offset"] = G.PositionD(*o) if case.get("offpos") else o
    if case.get("center") is not None:
        cx, cy = case["center"]
        if how in ("image", "bounds"):
            cx, cy = cx + x0 + nx / 2, cy + y0 + ny / 2
        kw["center"] = (cx, cy)
    if setup_only:
        kw["setup_only"] = True
    out = prof.drawImage(**kw)
    return prof, image, out


TIGHT = dict(kvalue_accuracy=1e-10, maximum_fft_size=1536)


def value(im):
    return np.asarray(im.array)


def drawn(case):
    kinds = S.leaf_kinds(case["tree"])
    deep = "Moffat" in kinds or "Spergel" in kinds
    gsp = dict(TIGHT)
    if case["method"] == "auto" and S.build(case["tree"], RG).has_hard_edges:
        # would be a real-space convolution, which is documented as unsupported
        case = dict(case, method="fft")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error", RG.errors.GalSimFFTSizeWarning)
            if case["how"] in ("none", "undef"):
                if max(draw_with(case, RG, gsp, setup_only=True)[2].array.shape) > 200:
                    raise Inconclusive("automatic size too large")
            pr, imr, outr = draw_with(case, RG, gsp)
    except (RG.errors.GalSimFFTSizeError, RG.errors.GalSimFFTSizeWarning):
        raise Inconclusive("FFT size")
    pj, imj, outj = draw_with(case, JG)
    if imr is not None:
        # the given image itself is drawn on
        close("drawn image is the given one", value(imj), value(outj), 0)
    if case["how"] in ("none", "undef") and outj.array.shape != outr.array.shape:
        # size is a ceil of a tabulated quantity
        if deep and abs(outj.array.shape[0] - outr.array.shape[0]) <= 2:
            raise Inconclusive("automatic size at a switch-over")
        raise Violation("shape %s, reference %s" % (outj.array.shape, outr.array.shape))
    b, c = outj.bounds, outr.bounds
    equal("bounds", [int(b.xmin), int(b.xmax), int(b.ymin), int(b.ymax)],
          [c.xmin, c.xmax, c.ymin, c.ymax])
    equal("dtype", outj.array.dtype, outr.array.dtype)
    same_wcs(outj, outr, 1e-3 if deep else 1e-9)
    got, want = value(outj), value(outr)
    integer = want.dtype.kind in "iu"
    # amplitude of the drawn object, whatever was in the image before
    f64 = dict(case, dtype="D", add=False)
    if integer:
        f64["tree"] = {"on": case["tree"], "ops": [["mul", 300.0]]}
        _, _, fr = draw_with(f64, RG, gsp)
    else:
        _, _, fr = draw_with(f64, RG, gsp)
    amp = max(float(np.max(np.abs(fr.array))), 1e-12 * abs(float(fr.added_flux)))
    totflux = comp_flux(pr)
    tol = np.zeros(want.shape) + 1e-9 * amp + 2e-9 * totflux
    if "Moffat" in kinds:
        tol += 3e-5 * amp + 2e-6 * totflux
    if "Spergel" in kinds:
        tol += 2e-6 * amp
    if want.dtype == np.float32 or case["add"]:  # the reference adds a float32 image
        tol += 3e-7 * (np.abs(want) + amp)
    if integer:
        # the library rounds to nearest (documented), the reference truncates
        tol += 1.0
        diff = difference(got, want)
        # out-of-range values convert as the platform likes
        lim = np.iinfo(want.dtype)
        base = case["fill"] if case["add"] else 0
        diff[(fr.array + base > lim.max - 2) | (fr.array + base < lim.min - 1)
             | (fr.array < lim.min - 1)] = 0
    else:
        diff = np.abs(got.astype(float) - want.astype(float))
    af, afr = float(outj.added_flux), float(outr.added_flux)
    if integer:
        aftol = np.inf  # sums rounded pixels, the reference unrounded ones
    else:
        # what one unit of image sum means in reported flux
        per = abs(afr / fr.array.sum()) if fr.array.sum() != 0 else 1.0
        per = max(per, abs(float(fr.added_flux) / fr.array.sum()) if fr.array.sum() != 0 else 0)
        aftol = 4 * per * float(np.sum(tol)) + 1e-6 * abs(afr)
        if case["add"]:
            aftol *= 1 + case["fill"]
    if not (np.all(diff <= tol) and abs(af - afr) <= aftol):
        # hard edges on pixel centres / accuracy settings at a switch-over: how much
        # does the reference itself move?
        spread, afspread = np.zeros(want.shape), 0.0
        others = [dict(doff=d) for d in ((1e-8, 1e-8), (-1e-8, 1e-8), (1e-8, -1e-8), (-1e-8, -1e-8))]
        if deep:
            others += [dict(gsp=dict(gsp, **{k: v * d})) for d in (0.997, 1.003)
                       for k, v in (("maxk_threshold", 1e-3), ("folding_threshold", 5e-3))]
        for o in others:
            _, _, p = draw_with(case, RG, **dict(dict(gsp=gsp), **o))
            if p.array.shape == want.shape:
                d = difference(value(p), want) if integer else np.abs(value(p).astype(float) - want)
                spread = np.maximum(spread, d)
                afspread = max(afspread, abs(float(p.added_flux) - afr))
        bad = diff > tol + 2 * spread
        if np.any(bad):
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation(
                "pixel [y,x]=%s: got %r, reference %r (allowed difference %g; %d of %d pixels differ)"
                % (i, got[i], want[i], tol[i], bad.sum(), got.size)
            )
        if not integer and abs(af - afr) > aftol + 4 * afspread + 2 * per * float(spread.sum()):
            raise Violation("added_flux: got %r, reference %r (allowed %g)" % (af, afr, aftol))
        label("edge")
    label(case["how"], case["method"], "dtype " + case["dtype"])
    if case["add"]:
        label("add_to_image")
    if case["wcs_on"] in ("arg", "image"):
        label("wcs " + case["wcs"]["wcs"])
    return amp > 0 and int(np.sum(np.abs(want) > 0)) > 4


def difference(a, b):
    """|a - b| modulo the integer width (casting wraps)."""
    d = a.astype(np.int64) - b.astype(np.int64)
    m = 2 ** (8 * a.dtype.itemsize)
    d = np.mod(d, m)
    return np.minimum(d, m - d).astype(float)


def comp_flux(o):
    from vlib.props.c01 import comp_flux as c
    return c(o)


def same_wcs(a, b, rtol):
    p, q = a.wcs, b.wcs
    equal("wcs class", type(p).__name__, type(q).__name__)
    cx, cy = b.true_center.x, b.true_center.y
    for dx, dy in ((0, 0), (3.5, -2.25)):
        x, y = cx + dx, cy + dy
        if q._isCelestial:
            u, v = p.toWorld(JG.PositionD(x, y)), q.toWorld(RG.PositionD(x, y))
            d = abs(float(u.dec.rad) - v.dec.rad) + abs(np.mod(float(u.ra.rad) - v.ra.rad + np.pi, 2 * np.pi) - np.pi)
            if d > 1e-10:
                raise Violation("wcs maps (%r,%r) to %s, reference %s" % (x, y, u, v))
        else:
            u, v = p.toWorld(JG.PositionD(x, y)), q.toWorld(RG.PositionD(x, y))
            close("wcs", [float(u.x), float(u.y)], [v.x, v.y], rtol, 1e-8)


TESTS = [
    Test("drawn", cases, drawn, 240, 6000,
         "the object puts light on more than four pixels", cost=10),
]
