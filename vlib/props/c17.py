"""C17: interpolation kernels and interpolated images match the reference."""

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, label, require
from vlib.specs import JG, RG

SIMPLE = ["nearest", "linear", "cubic", "quintic", "sinc", "delta"]
KVA = [1e-3, 1e-4, 1e-5, 1e-6]


def kernel(d, G):
    k = d["k"]
    kw = {}
    if d.get("gsp"):
        kw["gsparams"] = G.GSParams(**d["gsp"])
    if k == "lanczos":
        return G.Lanczos(d["n"], d["dc"], **kw)
    if d.get("named"):
        return G.Interpolant.from_name(k, **kw)
    return {"nearest": G.Nearest, "linear": G.Linear, "cubic": G.Cubic, "quintic": G.Quintic, "sinc": G.SincInterpolant,
            "delta": G.Delta}[k](**kw)


def f(x):
    return float(np.asarray(x))


# ------------------------------------------------------------------ kernels
@st.composite
def kcases(draw):
    k = draw(st.sampled_from(SIMPLE + ["lanczos"] * 6))
    d = dict(k=k)
    if k == "lanczos":
        d["n"] = draw(st.integers(1, 30))
        d["dc"] = draw(st.booleans())
    elif k != "delta":
        d["named"] = draw(st.booleans())
    if draw(st.booleans()):
        d["gsp"] = dict(kvalue_accuracy=draw(st.sampled_from(KVA)))
        # (the reference shares its Lanczos tables between different table_spacings)
    return dict(d=d, x=draw(st.lists(S.fl(-1.1, 1.1, 6), min_size=12, max_size=12)),
                m=draw(st.one_of(st.none(), st.integers(1, 12))))


def kernels(case):
    d = case["d"]
    j, r = kernel(d, JG), kernel(d, RG)
    name = d["k"] + str(d.get("n", ""))
    for n in ("xrange", "ixrange", "krange"):
        close("%s.%s" % (name, n), f(getattr(j, n)), f(getattr(r, n)), 1e-9)
    equal("gsparams", JG.GSParams.from_galsim(r.gsparams), j.gsparams)
    for n in ("positive_flux", "negative_flux"):
        # the reference integrates numerically
        close("%s.%s" % (name, n), f(getattr(j, n)), f(getattr(r, n)), 1e-3 if d["k"] == "sinc" else 1e-5, 1e-5)
    m = case["m"]
    full = np.asarray(r.unit_integrals(max_len=64))
    got = np.asarray(j.unit_integrals(max_len=m))
    equal(name + ": number of unit integrals", len(got), min(m, r.ixrange // 2 + 1) if m else len(r.unit_integrals()))
    n = min(len(got), len(full))
    close(name + ".unit_integrals", got[:n], full[:n], 1e-5, 1e-7)
    xr = min(r.xrange, 40.0)
    if d["k"] == "delta":
        x = np.array([0.0, 0.3 * r.gsparams.kvalue_accuracy, 0.6 * r.gsparams.kvalue_accuracy, -1.0, 1.0])
    else:
        knots = np.arange(-min(int(xr) + 2, 12), min(int(xr) + 3, 13))
        x = np.array([t * xr for t in case["x"]] + [float(k) for k in knots] + [k + 0.5 for k in knots] + [1e-9, -1e-5, 1e-3, xr - 1e-7, xr + 1e-7])
    if d["k"] in ("nearest",):
        x = x[np.abs(np.abs(x) - 0.5) > 1e-9]  # which side the edge belongs to is not specified
    xtol = 1e-9 if d["k"] != "lanczos" else 2e-5  # the reference tabulates nothing, but uses single-precision-like constants
    close(name + ".xval", np.asarray(j.xval(x)), np.array([r.xval(v) for v in x]), 0, xtol * max(1.0, np.max(np.abs(r.xval(x)))))
    close(name + ".xval (scalar)", f(j.xval(float(x[0]))), r.xval(float(x[0])), 0, xtol * max(1.0, abs(r.xval(float(x[0])))))
    kva = r.gsparams.kvalue_accuracy
    kr = min(r.krange, 200.0)
    k = np.array([t * kr for t in case["x"]] + [0.0, 2 * np.pi, -2 * np.pi, np.pi, 4 * np.pi, 1e-6, 0.1, 1.0])
    k = k[np.abs(np.abs(k) - r.krange) > 1e-6 * r.krange]
    if d["k"] == "sinc":
        k = k[np.abs(np.abs(k) - np.pi) > 1e-9]
    # both tabulate; with n = 1 the spacing of the table is coarse in both
    ktol = (20.0 if d["n"] == 1 else 0.05) * kva if d["k"] == "lanczos" else 1e-9
    close(name + ".kval", np.asarray(j.kval(k)), np.array([r.kval(v) for v in k]), 0, ktol)
    close(name + ".kval (scalar)", f(j.kval(float(k[0]))), r.kval(float(k[0])), 0, ktol)
    label(d["k"])
    return True


# ------------------------------------------------------------------ interpolated images
SHAPES = [(5, 5), (4, 4), (6, 9), (8, 3), (12, 12)]
XINT = [dict(k="quintic"), dict(k="cubic"), dict(k="linear"), dict(k="nearest"), dict(k="lanczos", n=3, dc=True),
        dict(k="lanczos", n=4, dc=False), dict(k="lanczos", n=7, dc=True), None]
KINT = [None, None, dict(k="cubic"), dict(k="lanczos", n=5, dc=True), dict(k="linear")]
ADHOC = dict(k="delta")


def pixels(seed, shape, kind):
    r = np.random.RandomState(seed)
    ny, nx = shape
    y, x = np.mgrid[0:ny, 0:nx]
    if kind == "blob":
        cx, cy = r.uniform(0.3, 0.7, 2) * (nx - 1, ny - 1)
        s = r.uniform(0.15, 0.35) * min(ny, nx)
        a = np.exp(-((x - cx) ** 2 + (y - cy) ** 2 * r.uniform(0.6, 1.4)) / (2 * s * s + 0.1))
    elif kind == "noise":
        a = r.normal(0.3, 1.0, shape)
        if abs(a.sum()) < 0.1 * np.abs(a).sum():
            a += 0.5
    elif kind == "pos":
        a = r.uniform(0.1, 2.0, shape)
    else:
        a = np.zeros(shape)
        a[ny // 2, nx // 2] = 1.0
        a[r.randint(ny), r.randint(nx)] += 0.5
    return np.round(a * r.uniform(0.5, 20.0), 6)


@st.composite
def iis(draw, simple=False):
    d = dict(seed=draw(st.integers(0, 10**6)), shape=draw(st.integers(0, len(SHAPES) - 1)),
             kind=draw(st.sampled_from(["blob", "blob", "pos", "noise", "points"])),
             org=[draw(st.integers(-20, 30)), draw(st.integers(-20, 30))],
             dt=draw(st.sampled_from("DDF")),
             x=draw(st.integers(0, len(XINT) - 1)))
    d["src"] = draw(st.sampled_from(["scale", "wcs", "image", "image"]))
    if d["src"] == "scale":
        d["scale"] = draw(S.fl(0.1, 2.0, 3))
    else:
        d["wcs"] = draw(S.wcses(("PixelScale", "ShearWCS", "JacobianWCS", "AffineTransform", "OffsetWCS") if d["src"] == "image"
                                else ("PixelScale", "ShearWCS", "JacobianWCS", "AffineTransform", "Tan"), org=20.0))
    if simple:
        return d
    d["kint"] = draw(st.integers(0, len(KINT) - 1))
    d["flux"] = draw(st.one_of(st.none(), S.posflux))
    d["norm"] = draw(st.sampled_from(["flux", "f", "sb", "surface brightness", "Flux", "SB"]))
    d["pad"] = draw(st.sampled_from([4.0, 4.0, 2.0, 1.0, 1.5, 6.0]))
    d["true"] = draw(st.booleans())
    d["off"] = draw(st.one_of(st.none(), st.tuples(S.fl(-2, 2, 3), S.fl(-2, 2, 3)).map(list)))
    d["stepk"] = draw(st.sampled_from([True, True, False, 0.3, 0.9]))
    d["maxk"] = draw(st.sampled_from([True, True, False, 2.5, 0.7]))
    if draw(st.booleans()):
        d["gsp"] = draw(S.gsp_dicts(["folding_threshold", "maxk_threshold", "kvalue_accuracy"], 2))
    elif draw(st.booleans()):
        # loose enough to matter for small pictures
        d["gsp"] = dict(folding_threshold=draw(st.sampled_from([0.03, 0.1, 0.3])),
                        maxk_threshold=draw(st.sampled_from([1e-3, 0.03, 0.2])))
    return d


def wcs_for(w, G):
    if w["wcs"] == "Tan":
        # origin inside the picture
        w = dict(w, origin=[x / 10 for x in w["origin"]])
    return S.make_wcs(w, G)


def make(d, G):
    a = pixels(d["seed"], SHAPES[d["shape"]], d["kind"]).astype({"D": np.float64, "F": np.float32}[d["dt"]])
    kw = {}
    ikw = dict(xmin=d["org"][0], ymin=d["org"][1])
    if d["src"] == "scale":
        kw["scale"] = d["scale"]
        ikw["scale"] = 7.7  # must be overridden
    elif d["src"] == "wcs":
        kw["wcs"] = wcs_for(d["wcs"], G)
    else:
        ikw["wcs"] = wcs_for(d["wcs"], G)
    im = G.Image(np.array(a), **ikw)
    x = XINT[d["x"]]
    if x is not None:
        kw["x_interpolant"] = kernel(x, G) if d["seed"] % 2 else "lanczos%d%s" % (x["n"], "FT"[x["dc"]]) if x["k"] == "lanczos" else x["k"]
    if d.get("kint") is not None and KINT[d["kint"]] is not None:
        kw["k_interpolant"] = kernel(KINT[d["kint"]], G)
    if d.get("flux") is not None:
        kw["flux"] = d["flux"]
    if "norm" in d:
        kw["normalization"] = d["norm"]
        kw["pad_factor"] = d["pad"]
        kw["use_true_center"] = d["true"]
        kw["calculate_stepk"] = d["stepk"]
        kw["calculate_maxk"] = d["maxk"]
    if d.get("off"):
        kw["offset"] = G.PositionD(*d["off"]) if d["seed"] % 3 else tuple(d["off"])
    if d.get("gsp"):
        kw["gsparams"] = G.GSParams(**d["gsp"])
    return G.InterpolatedImage(im, **kw), im


def bb(im):
    b = im.bounds
    return [int(v) for v in (b.xmin, b.xmax, b.ymin, b.ymax)]


@st.composite
def iicases(draw):
    return dict(ii=draw(iis()), ops=draw(st.lists(S.ops(), max_size=2)), pts=draw(st.lists(S.fl(-1.3, 1.3, 4), min_size=12, max_size=12)))


def values(case):
    d = case["ii"]
    (j, ij), (r, ir) = make(d, JG), make(d, RG)
    ny, nx = SHAPES[d["shape"]]
    scale = float(np.abs(ir.array).sum())
    # the reference's padding with values given in single precision
    rt = 1e-9
    ls = r._wcs.pixelArea() if hasattr(r, "_wcs") else 1.0
    amp = abs(r.flux) / abs(float(ir.array.sum())) * scale
    close("flux", f(j.flux), r.flux, 1e-8)
    close("centroid", [f(j.centroid.x), f(j.centroid.y)], [r.centroid.x, r.centroid.y], 1e-7, 1e-7 * (1 + abs(r.centroid.x) + abs(r.centroid.y)) * scale / abs(ir.array.sum()))
    close("max_sb", f(j.max_sb), r.max_sb, 1e-8)
    close("positive_flux", f(j.positive_flux), r.positive_flux, 1e-4, 1e-4 * amp)
    close("negative_flux", f(j.negative_flux), r.negative_flux, 1e-4, 1e-4 * amp)
    if isinstance(d["stepk"], float) and np.ceil(np.pi / d["stepk"]) < max(nx, ny) / 2:
        # the reference considers all of the image nevertheless
        close("stepk (limited)", f(j.stepk) / r.stepk, 1.5, 0, 0.51)
    else:
        close("stepk", f(j.stepk), r.stepk, 1e-6)
    # an upper limit of maxk is rounded up to the grid by the reference
    dk = 2 * np.pi / r._xim.array.shape[0] / r._wcs._minScale() if not isinstance(d["maxk"], bool) else 0.0
    close("maxk", f(j.maxk), r.maxk, 1e-6, 2.1 * dk)
    equal("image bounds", bb(j.image), bb(r.image))
    close("image", np.asarray(j.image.array), r.image.array, 1e-7)
    equal("the image given", np.asarray(ij.array).tolist(), ir.array.tolist())
    equal("its dtype", np.dtype(ij.dtype), np.dtype(ir.dtype))
    equal("its bounds", bb(ij), bb(ir))
    for n in ("x_interpolant", "k_interpolant"):
        equal(n, repr(getattr(j, n)), repr(getattr(r, n)))
    for n in ("has_hard_edges", "is_axisymmetric", "is_analytic_x", "is_analytic_k"):
        equal(n, bool(getattr(j, n)), bool(getattr(r, n)))
    # an interpolating kernel passes through the pixels
    if not case["ops"]:
        label("plain")
    jo, ro = j, r
    for op in case["ops"]:
        jo, ro = S.apply_op(jo, op, JG), S.apply_op(ro, op, RG)
    ext = np.pi / r.stepk if np.isfinite(r.stepk) else 5.0
    half = 0.5 * max(nx, ny) * np.sqrt(ls)
    t = case["pts"]
    xs = [(half * t[2 * i], half * t[2 * i + 1]) for i in range(6)] + [(0.0, 0.0), (3 * ext, 0.1)]
    sb = amp / ls * abs(ro.flux / r.flux) / abs(np.linalg.det(ro.jac) if isinstance(ro, RG.Transformation) and not isinstance(ro, RG.InterpolatedImage) else 1.0)
    x = XINT[d["x"]]
    lz = x is not None and x["k"] == "lanczos"
    for p in xs:
        w = ro.xValue(*p)
        g = f(jo.xValue(*p))
        if abs(g - w) > (1e-6 if lz else 1e-9) * sb + 1e-7 * abs(w) and not edge(x, jo, ro, p, sb, g):
            raise Violation("xValue(%r): got %r, reference %r (scale %g)" % (p, g, w, sb))
    kmax = r.maxk
    ki = KINT[d.get("kint") or 0]
    a2 = amp * abs(ro.flux / r.flux)
    for i in range(6 if kok(r) else 0):
        p = (kmax * t[2 * i], 0.7 * kmax * t[2 * i + 1])
        w = ro.kValue(*p)
        g = complex(np.asarray(jo.kValue(*p)))
        tol = a2 * (3 * r.gsparams.kvalue_accuracy if lz else 1e-6 if ki and ki["k"] == "lanczos" else 1e-8)
        if abs(g - w) > tol and not kedge(jo, ro, p, g, tol):
            raise Violation("kValue(%r): got %r, reference %r (scale %g)" % (p, g, w, a2))
    if kok(r):
        close("kValue(0, 0)", complex(np.asarray(jo.kValue(0.0, 0.0))), complex(ro.kValue(0.0, 0.0)), 1e-5 if lz else 1e-7, 1e-6 * a2)
    label(x["k"] if x else "default", d["kind"])
    return True


def kok(r):
    """The reference does not wrap a Fourier kernel around its grid more than once."""
    return r.k_interpolant.ixrange + 2 < min(r._xim.array.shape)


def edge(x, jo, ro, p, sb, g):
    """Is p within rounding of a jump of a discontinuous kernel?"""
    if not (x and x["k"] == "nearest"):
        return False
    e = 1e-6
    near = [ro.xValue(p[0] + a * e, p[1] + b * e) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    return np.ptp(near) > 1e-6 * sb or any(abs(g - w) < 1e-9 * sb for w in near)


def kedge(jo, ro, p, g, tol):
    e = 1e-6 * (abs(p[0]) + abs(p[1]))
    near = [ro.kValue(p[0] + a * e, p[1] + b * e) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    return any(abs(g - w) < 2 * tol for w in near)


# ------------------------------------------------------------------ drawing
@st.composite
def drawcases(draw):
    d = dict(ii=draw(iis(draw(st.booleans()))))
    d["ii"]["dt"] = "D"
    d["ops"] = draw(st.lists(S.ops(("shear", "rotate", "dilate", "shift", "mul", "withFlux", "lens")), max_size=2))
    d["how"] = draw(st.sampled_from(["no_pixel", "no_pixel", "fft", "conv", "sum", "k", "kconv"]))
    d["scale"] = draw(S.fl(0.15, 0.6, 3))
    d["nx"], d["ny"] = draw(st.sampled_from([[9, 9], [6, 11], [8, 8]]))
    d["off"] = draw(st.tuples(S.fl(-1, 1, 2), S.fl(-1, 1, 2)).map(list))
    d["sigma"] = draw(S.fl(0.3, 1.5, 2))
    for k in ("maxk", "stepk"):  # explicit limits are treated differently
        if isinstance(d["ii"].get(k), float):
            d["ii"][k] = True
    return d


def drawn(case):
    d = case["ii"]
    (j, _), (r, _) = make(d, JG), make(d, RG)
    if case["how"] not in ("no_pixel", "sum") and not kok(r):
        raise Inconclusive("kernel wider than the Fourier grid")
    for op in case["ops"]:
        j, r = S.apply_op(j, op, JG), S.apply_op(r, op, RG)
    out = []
    how = case["how"]
    sc = case["scale"]
    if r.maxk / r.stepk > 400 or r.getGoodImageSize(sc) > 1000:
        raise Inconclusive("large")
    x = XINT[d["x"]]
    near = x is not None and x["k"] == "nearest"
    for G, o in ((RG, r), (JG, j)):
        kw = dict(nx=case["nx"], ny=case["ny"], scale=sc, dtype=float)
        if how == "conv":
            o = G.Convolve([o, G.Gaussian(sigma=case["sigma"])])
        elif how == "sum":
            o = o + G.Exponential(half_light_radius=case["sigma"], flux=2.0)
        elif how == "kconv":
            o = G.Convolve([o, G.Gaussian(sigma=case["sigma"]), G.Pixel(sc)])
        try:
            if how[0] == "k":
                im = o.drawKImage(nx=case["nx"], ny=case["ny"], scale=min(r.stepk, 1.0), recenter=True)
            elif how in ("no_pixel", "sum") and near:
                # the reference's own loop fails an assertion for this kernel: evaluate point by point
                if G is JG:
                    im = o.drawImage(method="no_pixel", offset=G.PositionD(*case["off"]), **kw)
                else:
                    im = RG.ImageD(case["nx"], case["ny"])
                    c = im.true_center
                    for iy in range(case["ny"]):
                        for ix in range(case["nx"]):
                            im.array[iy, ix] = sc**2 * o.xValue((ix + 1 - c.x - case["off"][0]) * sc, (iy + 1 - c.y - case["off"][1]) * sc)
            else:
                im = o.drawImage(method="no_pixel" if how in ("no_pixel", "sum", "conv") else "auto", offset=G.PositionD(*case["off"]), **kw)
        except RG.GalSimFFTSizeError:
            # a warning only in the reference
            raise Inconclusive("large")
        out.append(im)
    out = out[::-1]
    a, b = np.asarray(out[0].array), out[1].array
    lz = x is not None and x["k"] == "lanczos"
    scale = max(np.max(np.abs(b)), 1e-3 * abs(r.flux))
    if lz:
        tol = 30 * r.gsparams.kvalue_accuracy if how not in ("no_pixel", "sum") else 1e-5
    else:
        tol = 1e-6
    err = np.abs(a - b)
    bad = err > tol * scale
    if near and how in ("no_pixel", "sum") and np.sum(bad) <= 2 * sum(bad.shape) and not case["ops"]:
        label("jump")
        bad[:] = False  # pixel centres on a jump
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise Violation("%s image: pixel %s is %r, reference %r (%d of %d differ; largest error %.3g of peak %.3g)" % (
            how, i, a[i], b[i], bad.sum(), bad.size, err.max(), scale))
    label(how, "transformed" if case["ops"] else "plain", x["k"] if x else "default")
    return True


TESTS = [
    Test("kernels", kcases, kernels, 160, 4000, "every case", cost=2),
    Test("values", iicases, values, 120, 4000, "every case", cost=4),
    Test("drawn", drawcases, drawn, 80, 3000, "an image was compared", cost=4),
]
