"""C04: Fourier images, image FFTs and periodic wrapping equal the reference's."""

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, label
from vlib.props.c01 import comp_flux
from vlib.specs import JG, RG

KSHAPES = [(16, 16), (17, 17), (17, 24), (25, 18), (32, 31), (9, 24)]
TIGHT = dict(kvalue_accuracy=1e-12)
LEAF = dict(size=S.fl(0.4, 2.0, 3), moffat_beta=(2.3, 5.0), spergel_nu=(-0.5, 3.0))


def ibounds(im):
    b = im.bounds
    return [int(b.xmin), int(b.xmax), int(b.ymin), int(b.ymax)]


def arr(im):
    return np.asarray(im.array)


# ----------------------------------------------------------------- k drawing
@st.composite
def kcases(draw):
    leaf = S.leaves(S.LEAVES, **LEAF)
    d = dict(tree=draw(S.trees(leaf, draw(st.sampled_from([0, 1, 1, 2])), maxops=2)))
    d["how"] = how = draw(st.sampled_from(["image", "image", "nxny", "bounds", "none", "undef"]))
    d["shape"] = draw(st.sampled_from(KSHAPES))
    d["org"] = [draw(st.integers(-30, 30)), draw(st.integers(-30, 30))]
    if draw(st.booleans()):
        d["org"] = [-(d["shape"][0] // 2), -(d["shape"][1] // 2)]
    d["dtype"] = draw(st.sampled_from(["CD", "CD", "CF"]))
    d["scale"] = draw(st.one_of(st.none(), S.fl(0.05, 1.0, 3), S.near(-1.0, 0.0)))
    d["iscale"] = draw(st.one_of(st.none(), S.fl(0.05, 1.0, 3), S.near(-1.0)))
    d["recenter"] = draw(st.booleans())
    d["add"] = how == "image" and draw(st.booleans())
    d["fill"] = draw(st.sampled_from([[0, 0], [1.5, -2.0]]))
    return d


def kdraw_with(case, G, gsp=None, setup_only=False):
    prof = S.build(case["tree"], G, gsp)
    dt = S.DTYPES[case["dtype"]]
    nx, ny = case["shape"]
    x0, y0 = case["org"]
    b = G.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1)
    kw = dict(recenter=case["recenter"])
    image = None
    if case["how"] == "image":
        image = G.Image(b, dtype=dt, init_value=complex(*case["fill"]))
        if case["iscale"] is not None:
            image.scale = case["iscale"]
        kw.update(image=image, add_to_image=case["add"])
    elif case["how"] == "undef":
        image = G.Image(dtype=dt)
        if case["iscale"] is not None:
            image.scale = case["iscale"]
        kw.update(image=image)
    elif case["how"] == "nxny":
        kw.update(nx=nx, ny=ny)
    elif case["how"] == "bounds":
        kw.update(bounds=b)
    if case["scale"] is not None:
        kw["scale"] = case["scale"]
    if setup_only:
        kw["setup_only"] = True
    return prof, image, prof.drawKImage(**kw)


def ref_kdraw(case):
    """The reference crashes on k images away from the origin, so it only sets the
    image up; the values are those of a large centred image, cut to size."""
    prof, image, r = kdraw_with(case, RG, TIGHT, True)
    b = r.bounds
    m = max(abs(b.xmin), abs(b.xmax), abs(b.ymin), abs(b.ymax)) + 1
    big = RG.ImageCD(RG.BoundsI(-m, m, -m, m), scale=r.scale)
    prof.drawKImage(big, recenter=False)
    v = big[b].array.astype(r.array.dtype)
    if case["add"]:
        v = v + r.array
    return prof, image, RG.Image(v, bounds=b, wcs=r.wcs)


def kdraw(case):
    kinds = S.leaf_kinds(case["tree"])
    if case["add"] and case["recenter"]:
        nx, ny = case["shape"]
        case = dict(case, org=[-(nx // 2), -(ny // 2)])
    if case["how"] in ("none", "undef"):
        p = S.build(case["tree"], RG, TIGHT)
        dk = max(case["scale"] or 0, case["iscale"] or 0, 0) or p.stepk
        if p.maxk / min(dk, p.stepk) > 100:
            raise Inconclusive("automatic size too large")
        sh = kdraw_with(case, RG, TIGHT, True)[2].array.shape
        if max(sh) > 150:
            raise Inconclusive("automatic size too large")
    dk = case["scale"] if case["scale"] is not None else case["iscale"]
    if "DeltaFunction" in kinds and S.build(case["tree"], RG).maxk > 1e6 and (
            case["how"] != "image" or (dk or 0) <= 0):
        raise Inconclusive("a point source has no sampling of its own")
    pr, imr, r = ref_kdraw(case)
    pj, imj, j = kdraw_with(case, JG)
    table = "Moffat" in kinds or "Spergel" in kinds
    if table and j.array.shape != r.array.shape:
        if abs(j.array.shape[0] - r.array.shape[0]) <= 2:
            raise Inconclusive("automatic size at a switch-over")
    equal("bounds", ibounds(j), ibounds(r))
    equal("dtype", np.dtype(arr(j).dtype), np.dtype(arr(r).dtype))
    equal("image.dtype", np.dtype(j.dtype), np.dtype(r.dtype))
    close("scale", float(j.scale), r.scale, 1e-3 if table else 1e-10)
    if imr is not None and case["how"] == "image":
        close("the given image is drawn on", arr(imj), arr(j), 0)
        equal("bounds of the given image", ibounds(imj), ibounds(r))
    if table and abs(float(j.scale) - r.scale) > 1e-10 * r.scale:
        # tabulated sampling step: redraw the reference at our step
        r = ref_kdraw(dict(case, scale=float(j.scale)))[2]
        if r.array.shape != j.array.shape:
            raise Inconclusive("automatic size at a switch-over")
    fl = comp_flux(pr)
    tol = 2e-9 * fl
    if "Moffat" in kinds:
        tol = 6e-5 * fl
    if "Spergel" in kinds:
        tol = max(tol, 1e-6 * fl)
    if case["dtype"] == "CF":
        tol += 1e-6 * (fl + abs(complex(*case["fill"])))
    close("k image", arr(j), arr(r), 1e-9, tol)
    label(case["how"], "recenter" if case["recenter"] else "fixed centre")
    if case["add"]:
        label("add_to_image")
    return np.sum(np.abs(arr(r)) > 100 * tol) > 4


# --------------------------------------------------------------------- FFTs
@st.composite
def fcases(draw):
    nx, ny = draw(st.sampled_from([(8, 8), (6, 10), (9, 9), (12, 5), (16, 16), (1, 7)]))
    how = draw(st.sampled_from(["centred", "corner", "any"]))
    if how == "centred":
        org = [-(nx // 2), -(ny // 2)]
    elif how == "corner":
        org = [0, 0]
    else:
        org = [draw(st.integers(-12, 4)), draw(st.integers(-12, 4))]
    return dict(shape=[nx, ny], org=org, seed=draw(S.seeds),
                dtype=draw(st.sampled_from(["D", "D", "F", "S", "I"])),
                scale=draw(S.fl(0.1, 3.0, 3)))


def data(case, complex_=False):
    rng = np.random.RandomState(case["seed"] % 2**31)
    nx, ny = case["shape"]
    a = rng.randint(-50, 51, size=(ny, nx)).astype(float)
    if complex_:
        a = a + 1j * rng.randint(-50, 51, size=(ny, nx))
    elif case["dtype"] in ("D", "F"):
        a = a / 8.0
    return a


def make(case, G, a):
    nx, ny = case["shape"]
    x0, y0 = case["org"]
    return G.Image(np.array(a).astype(S.DTYPES[case["dtype"]]), xmin=x0, ymin=y0,
                   scale=case["scale"])


def fft(case):
    a = data(case)
    j, r = make(case, JG, a), make(case, RG, a)
    kj, kr = j.calculate_fft(), r.calculate_fft()
    amp = np.abs(a).sum() * case["scale"] ** 2 + 1e-12
    prec = 1e-12 if case["dtype"] == "D" else 1e-6
    equal("bounds", ibounds(kj), ibounds(kr))
    close("scale", float(kj.scale), kr.scale, 1e-12)
    close("fft", arr(kj), arr(kr), 0, prec * amp)
    close("the transform leaves its input alone", arr(j), arr(r), 0)
    # and back
    ij, ir = kj.calculate_inverse_fft(), kr.calculate_inverse_fft()
    equal("inverse bounds", ibounds(ij), ibounds(ir))
    close("inverse scale", float(ij.scale), ir.scale, 1e-12)
    iamp = np.abs(a).sum() + 1e-12
    close("inverse", arr(ij), arr(ir), 0, prec * iamp)
    got = arr(ij[JG.BoundsI(*ibounds(j))])
    close("forward then inverse restores the image", got, a, 0, prec * iamp)
    label("dtype " + case["dtype"])
    return np.count_nonzero(a) > 2


# ------------------------------------------------------------- inverse FFTs
@st.composite
def icases(draw):
    xmin = draw(st.sampled_from([0, 0, 0, -2]))
    xmax = draw(st.sampled_from([3, 4, 8]))
    kind = draw(st.sampled_from(["target", "full", "any"]))
    if kind == "target":
        xmin, y0, y1 = 0, -xmax, xmax - 1
    elif kind == "full":
        y0, y1 = -xmax, xmax
    else:
        y0, y1 = draw(st.sampled_from([(-3, 5), (-5, 3), (-8, 2), (-4, 4), (0, 3)]))
    return dict(shape=[xmax - xmin + 1, y1 - y0 + 1], org=[xmin, y0], seed=draw(S.seeds),
                dtype=draw(st.sampled_from(["CD", "CD", "CF"])), scale=draw(S.fl(0.1, 3.0, 3)),
                herm=draw(st.booleans()))


def hermitian_column(a, ix, y0):
    """Make column ix (x = 0) satisfy f(0,-y) = conj f(0,y) where both are there."""
    ny = a.shape[0]
    for iy in range(ny):
        m = -(iy + y0) - y0
        if 0 <= m < ny:
            if m == iy:
                a[iy, ix] = a[iy, ix].real
            elif m > iy:
                a[m, ix] = np.conj(a[iy, ix])
    return a


def ifft(case):
    a = data(case, True)
    a = hermitian_column(a, -case["org"][0], case["org"][1])
    j, r = make(case, JG, a), make(case, RG, a)
    No2 = max(case["org"][0] + case["shape"][0] - 1, -case["org"][1],
              case["org"][1] + case["shape"][1] - 1)
    if case["org"][1] + case["shape"][1] - 1 == No2 or \
            case["org"][0] + case["shape"][0] - 1 == No2:
        # the Nyquist row/column of a real image is real only after wrapping, which both
        # libraries do when they pad; with exactly the target shape it is taken as is
        pass
    ij, ir = j.calculate_inverse_fft(), r.calculate_inverse_fft()
    equal("bounds", ibounds(ij), ibounds(ir))
    close("scale", float(ij.scale), ir.scale, 1e-12)
    amp = np.abs(a).sum() * case["scale"] ** 2
    close("inverse fft", arr(ij), arr(ir), 0, (1e-12 if case["dtype"] == "CD" else 1e-5) * amp)
    close("the transform leaves its input alone", arr(j), arr(r), 0)
    return True


# ------------------------------------------------------------------ wrapping
WRAPS = {
    # image shape (nx, ny): offsets and sizes of the wrap region (x0, y0, nx, ny)
    (16, 16): [(0, 0, 8, 8), (4, 4, 8, 8), (3, 6, 5, 4), (10, 0, 6, 16), (0, 9, 16, 7), (0, 0, 16, 16), (5, 5, 1, 1), (7, 6, 2, 2)],
    (12, 7): [(2, 1, 5, 3), (0, 0, 12, 7), (11, 6, 1, 1), (3, 0, 4, 7)],
    (9, 20): [(4, 8, 5, 6), (0, 3, 9, 4), (1, 1, 3, 2)],
}


@st.composite
def wcases(draw):
    if draw(st.booleans()):
        sh = draw(st.sampled_from(sorted(WRAPS)))
        d = dict(herm=None, shape=list(sh), reg=list(draw(st.sampled_from(WRAPS[sh]))),
                 org=[draw(st.integers(-40, 40)), draw(st.integers(-40, 40))])
        d["dtype"] = draw(st.sampled_from(["D", "F", "S", "I", "US", "CD", "CF"]))
    else:
        h = draw(st.sampled_from("xy"))
        n, m = draw(st.sampled_from([(8, 8), (6, 9), (12, 5)]))  # half-plane extent, other
        K = draw(st.sampled_from([x for x in (1, 2, 3, 4, 6, 8, 12) if x <= n]))
        mlo, mhi = draw(st.sampled_from([(-2, 1), (-m, m), (-m, m - 1), (-1, 2), (0, 0), (-4, 3)]))
        d = dict(herm=h, n=n, m=m, K=K, other=[mlo, mhi])
        d["dtype"] = draw(st.sampled_from(["CD", "CD", "CF", "D"]))
    d["seed"] = draw(S.seeds)
    return d


def wrap(case):
    cplx = case["dtype"] in ("CD", "CF")
    if case["herm"] is None:
        d = dict(case, scale=1.0)
        a = data(d, cplx)
        if not cplx and case["dtype"] != "D" and case["dtype"] != "F":
            a = np.abs(np.round(a))
        j, r = make(d, JG, a), make(d, RG, a)
        x0, y0, nx, ny = case["reg"]
        x0 += case["org"][0]
        y0 += case["org"][1]
        reg = (x0, x0 + nx - 1, y0, y0 + ny - 1)
        h = False
    else:
        n, m, K = case["n"], case["m"], case["K"]
        lo, hi = max(case["other"][0], -m), min(case["other"][1], m)
        d = dict(case, shape=[n + 1, 2 * m + 1], org=[0, -m], scale=1.0)
        a = hermitian_column(data(d, True), 0, -m)
        if not cplx:
            # a real, even half plane
            a = a.real.copy()
        if case["herm"] == "y":
            d.update(shape=[2 * m + 1, n + 1], org=[-m, 0])
            a = a.T.copy()
        j, r = make(d, JG, a), make(d, RG, a)
        reg = (0, K, lo, hi) if case["herm"] == "x" else (lo, hi, 0, K)
        h = case["herm"]
    wj = j.wrap(JG.BoundsI(*reg), hermitian=h)
    wr = r.wrap(RG.BoundsI(*reg), hermitian=h)
    prec = 1e-13 if case["dtype"] in ("D", "CD") else 1e-6
    amp = np.abs(a).sum() + 1
    equal("bounds", ibounds(wj), ibounds(wr))
    equal("dtype", np.dtype(arr(wj).dtype), np.dtype(arr(wr).dtype))
    close("wrapped region", arr(wj), arr(wr), 0, prec * amp)
    close("wrapped region inside the image", arr(j[JG.BoundsI(*reg)]), arr(wr), 0, prec * amp)
    if not h:
        # an independent definition: sum over all aliases
        nx, ny = case["reg"][2:]
        x0, y0 = case["reg"][:2]
        s = np.zeros((ny, nx), dtype=complex)
        for iy in range(a.shape[0]):
            for ix in range(a.shape[1]):
                s[(iy - y0) % ny, (ix - x0) % nx] += a[iy, ix]
        close("sum over aliases", arr(wj).astype(complex), s, 0, prec * amp)
    label("hermitian " + h if h else "plain")
    return np.count_nonzero(a) > 2


TESTS = [
    Test("kdraw", kcases, kdraw, 240, 8000,
         "the reference k image is not negligible in more than four pixels", cost=5),
    Test("fft", fcases, fft, 200, 8000, "more than two non-zero pixels", shards=4, cost=2),
    Test("ifft", icases, ifft, 160, 8000, shards=4, cost=2),
    Test("wrap", wcases, wrap, 400, 16000, "more than two non-zero pixels", cost=2),
]
