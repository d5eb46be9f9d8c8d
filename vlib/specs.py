"""JSON descriptions of library objects, Hypothesis strategies that draw them,
and builders that turn one description into the object of either library
(`jax_galsim` or the reference `galsim`)."""

import galsim
import jax_galsim
import numpy as np
from hypothesis import strategies as st

JG = jax_galsim
RG = galsim
MODS = (JG, RG)


# ----------------------------------------------------------------- scalars
def fl(lo, hi, digits=6):
    """Floats in [lo, hi], rounded so that cases stay readable; always finite."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: min(max(round(float(x), digits), lo), hi)
    )


def signed(lo, hi):
    return st.tuples(fl(lo, hi), st.booleans()).map(lambda t: t[0] if t[1] else -t[0])


def near(*vals):
    return st.sampled_from([float(v) for v in vals])


def ints(lo, hi):
    return st.integers(lo, hi)


sizes = fl(0.2, 3.0, 4)
fluxes = st.one_of(near(1.0), fl(0.1, 50.0, 3), fl(0.1, 50.0, 3).map(lambda x: -x))
posflux = st.one_of(near(1.0), fl(0.1, 50.0, 3))
seeds = st.integers(1, 2**31 - 2)


def small_shear(maxg=0.7):
    """(g1, g2) with |g| <= maxg."""
    return st.tuples(fl(0.0, maxg, 4), fl(-3.2, 3.2, 3)).map(
        lambda t: [
            round(float(t[0] * np.cos(t[1])), 6),
            round(float(t[0] * np.sin(t[1])), 6),
        ]
    )


@st.composite
def jacobians(draw, lo=0.3, hi=2.0, maxg=0.6, flip=True):
    """[a, b, c, d], well conditioned: scale * rotation * shear * optional flip."""
    s = draw(fl(lo, hi, 4))
    g1, g2 = draw(small_shear(maxg))
    th = draw(fl(-3.2, 3.2, 3))
    m = np.array([[1 + g1, g2], [g2, 1 - g1]]) / np.sqrt(1 - g1 * g1 - g2 * g2)
    r = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    m = s * (r @ m)
    if flip and draw(st.booleans()):
        m = m @ np.array([[0.0, 1.0], [1.0, 0.0]])
    return [round(float(x), 6) for x in m.ravel()]


# ---------------------------------------------------------------- profiles
GSP_FIELDS = {
    "folding_threshold": [1e-4, 1e-3, 5e-3, 1e-2, 3e-2],
    "stepk_minimum_hlr": [2.0, 5.0, 7.5],
    "maxk_threshold": [1e-5, 1e-4, 1e-3, 1e-2],
    "kvalue_accuracy": [1e-7, 1e-5, 1e-4],
    "xvalue_accuracy": [1e-7, 1e-5, 1e-4],
    "minimum_fft_size": [64, 128, 256],
    "maximum_fft_size": [4096, 8192],
    "shoot_accuracy": [1e-6, 1e-5, 1e-4],
    "table_spacing": [1, 2],
    "realspace_relerr": [1e-5, 1e-4],
    "realspace_abserr": [1e-7, 1e-6],
    "integration_relerr": [1e-7, 1e-6],
    "integration_abserr": [1e-9, 1e-8],
}


@st.composite
def gsp_dicts(draw, fields=tuple(GSP_FIELDS), maxn=3):
    names = draw(st.lists(st.sampled_from(list(fields)), max_size=maxn, unique=True))
    return {n: draw(st.sampled_from(GSP_FIELDS[n])) for n in names}


LEAVES = ("Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction")


@st.composite
def leaves(draw, kinds=LEAVES, flux=fluxes, size=sizes, moffat_beta=(1.6, 6.0),
           spergel_nu=(-0.6, 3.5)):
    k = draw(st.sampled_from(kinds))
    p = dict(flux=draw(flux))
    if k == "Gaussian":
        p[draw(st.sampled_from(["sigma", "half_light_radius", "fwhm"]))] = draw(size)
    elif k == "Exponential":
        p[draw(st.sampled_from(["half_light_radius", "scale_radius"]))] = draw(size)
    elif k == "Moffat":
        p["beta"] = draw(fl(moffat_beta[0], moffat_beta[1], 3))
        p[draw(st.sampled_from(["scale_radius", "half_light_radius", "fwhm"]))] = draw(size)
    elif k == "Spergel":
        # half-integer and integer indices are special cases of the formulae
        p["nu"] = draw(
            st.one_of(
                fl(spergel_nu[0], spergel_nu[1], 3),
                st.sampled_from(
                    [v for v in (-0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0)
                     if spergel_nu[0] <= v <= spergel_nu[1]]
                ),
            )
        )
        p[draw(st.sampled_from(["scale_radius", "half_light_radius"]))] = draw(size)
    elif k == "Box":
        p["width"] = draw(size)
        p["height"] = draw(size)
    elif k == "Pixel":
        p["scale"] = draw(size)
    return {"leaf": k, "p": p}


SHEAR_KINDS = ("g", "e", "eta", "q", "gbeta", "obj")


@st.composite
def shear_args(draw, maxg=0.6):
    """One way to write a shear down: {"kind":..., values}."""
    kind = draw(st.sampled_from(["g1g2", "e1e2", "eta1eta2", "gbeta", "ebeta", "etabeta", "qbeta"]))
    g1, g2 = draw(small_shear(maxg))
    g = float(np.hypot(g1, g2))
    beta = float(0.5 * np.arctan2(g2, g1))
    e = 2 * g / (1 + g * g)
    eta = 2 * np.arctanh(g)
    q = (1 - g) / (1 + g)
    r = lambda x: round(float(x), 6)  # noqa: E731
    c, s = np.cos(2 * beta), np.sin(2 * beta)
    d = {
        "g1g2": dict(g1=g1, g2=g2),
        "e1e2": dict(e1=r(e * c), e2=r(e * s)),
        "eta1eta2": dict(eta1=r(eta * c), eta2=r(eta * s)),
        "gbeta": dict(g=r(g), beta=r(beta)),
        "ebeta": dict(e=r(e), beta=r(beta)),
        "etabeta": dict(eta=r(eta), beta=r(beta)),
        "qbeta": dict(q=r(q), beta=r(beta)),
    }[kind]
    return d


def shear_kwargs(d, G):
    d = dict(d)
    if "beta" in d:
        d["beta"] = d["beta"] * G.radians
    return d


@st.composite
def ops(draw, kinds=None):
    k = draw(
        st.sampled_from(
            kinds
            or ("shear", "shearobj", "rotate", "dilate", "magnify", "lens", "transform",
                "shift", "shiftpos", "mul", "rmul", "div", "withFlux", "withScaledFlux",
                "expand", "neg")
        )
    )
    if k in ("shear", "shearobj"):
        return [k, draw(shear_args())]
    if k == "rotate":
        return [k, draw(fl(-7.0, 7.0, 3))]
    if k in ("dilate", "expand"):
        return [k, draw(fl(0.4, 2.0, 3))]
    if k == "magnify":
        return [k, draw(fl(0.4, 2.0, 3))]
    if k == "lens":
        g1, g2 = draw(small_shear(0.5))
        return [k, g1, g2, draw(fl(0.5, 2.0, 3))]
    if k == "transform":
        return [k] + draw(jacobians(0.5, 1.6, 0.4))
    if k in ("shift", "shiftpos"):
        return [k, draw(fl(-2.0, 2.0, 3)), draw(fl(-2.0, 2.0, 3))]
    if k in ("mul", "rmul", "div", "withScaledFlux"):
        return [k, draw(signed(0.3, 4.0))]
    if k == "withFlux":
        return [k, draw(fluxes)]
    return [k]


def apply_op(obj, op, G):
    k = op[0]
    if k == "shear":
        return obj.shear(**shear_kwargs(op[1], G))
    if k == "shearobj":
        return obj.shear(G.Shear(**shear_kwargs(op[1], G)))
    if k == "rotate":
        return obj.rotate(op[1] * G.radians)
    if k == "dilate":
        return obj.dilate(op[1])
    if k == "expand":
        return obj.expand(op[1])
    if k == "magnify":
        return obj.magnify(op[1])
    if k == "lens":
        return obj.lens(op[1], op[2], op[3])
    if k == "transform":
        return obj.transform(*op[1:])
    if k == "shift":
        return obj.shift(op[1], op[2])
    if k == "shiftpos":
        return obj.shift(G.PositionD(op[1], op[2]))
    if k == "mul":
        return obj * op[1]
    if k == "rmul":
        return op[1] * obj
    if k == "div":
        return obj / op[1]
    if k == "withFlux":
        return obj.withFlux(op[1])
    if k == "withScaledFlux":
        return obj.withScaledFlux(op[1])
    if k == "neg":
        return -obj
    if k == "gsp":
        return obj.withGSParams(**op[1])
    if k == "gspobj":
        return obj.withGSParams(G.GSParams(**op[1]))
    if k == "self":
        return obj
    raise ValueError(k)


@st.composite
def trees(draw, leaf=None, depth=2, conv=True, maxops=3, deconv=False, gsp=False):
    leaf = leaves() if leaf is None else leaf
    if depth == 0:
        node = draw(leaf)
    else:
        kinds = ["leaf", "leaf", "sum", "op+"]
        if conv:
            kinds += ["conv"]
        if deconv:
            kinds += ["deconv"]
        k = draw(st.sampled_from(kinds))
        sub = trees(leaf, depth - 1, conv, maxops, deconv, gsp)
        if k == "leaf":
            node = draw(leaf)
        elif k == "sum":
            node = {"sum": draw(st.lists(sub, min_size=1, max_size=3))}
        elif k == "op+":
            node = {draw(st.sampled_from(["add", "sub"])): [draw(sub), draw(sub)]}
        elif k == "deconv":
            node = {"deconv": draw(leaf)}
        else:
            node = {"conv": draw(st.lists(sub, min_size=2, max_size=3))}
    if gsp:
        if "leaf" in node:
            node = dict(node, gsp=draw(gsp_dicts()))
        elif "add" not in node and "sub" not in node:
            node = dict(node, propagate=draw(st.booleans()))
            if draw(st.booleans()):
                node["topgsp"] = draw(gsp_dicts())
    o = draw(st.lists(ops(), max_size=maxops))
    if gsp and draw(st.booleans()):
        o = o + [[draw(st.sampled_from(["gsp", "gspobj"])), draw(gsp_dicts())]]
    if o:
        node = {"on": node, "ops": o}
    return node


def build(spec, G, gsp=None):
    """gsp: GSParams overrides given to every leaf (dict)."""
    if "leaf" in spec:
        kw = dict(spec["p"])
        d = dict(gsp or {})
        d.update(spec.get("gsp", {}))
        if d:
            kw["gsparams"] = G.GSParams(**d)
        return getattr(G, spec["leaf"])(**kw)
    kw = {}
    if "propagate" in spec:
        kw["propagate_gsparams"] = spec["propagate"]
    if spec.get("topgsp"):
        kw["gsparams"] = G.GSParams(**spec["topgsp"])
    if "sum" in spec:
        return G.Sum([build(s, G, gsp) for s in spec["sum"]], **kw)
    if "add" in spec:
        a, b = (build(s, G, gsp) for s in spec["add"])
        return a + b
    if "sub" in spec:
        a, b = (build(s, G, gsp) for s in spec["sub"])
        return a - b
    if "conv" in spec:
        # real-space convolution is documented as unsupported: always ask for DFT
        return G.Convolve([build(s, G, gsp) for s in spec["conv"]], real_space=False, **kw)
    if "deconv" in spec:
        return G.Deconvolve(build(spec["deconv"], G, gsp), **kw)
    if "on" in spec:
        o = build(spec["on"], G, gsp)
        for op in spec["ops"]:
            o = apply_op(o, op, G)
        return o
    raise ValueError(spec)


def leaf_kinds(spec):
    if "leaf" in spec:
        return [spec["leaf"]]
    out = []
    for k in ("sum", "add", "sub", "conv"):
        if k in spec:
            for s in spec[k]:
                out += leaf_kinds(s)
    for k in ("deconv", "on"):
        if k in spec:
            out += leaf_kinds(spec[k])
    return out


def has(spec, key):
    if key in spec:
        return True
    for k in ("sum", "add", "sub", "conv"):
        if k in spec and any(has(s, key) for s in spec[k]):
            return True
    return any(k in spec and has(spec[k], key) for k in ("deconv", "on"))


def nops(spec):
    n = len(spec.get("ops", []))
    for k in ("sum", "add", "sub", "conv"):
        n += sum(nops(s) for s in spec.get(k, []))
    for k in ("deconv", "on"):
        if k in spec:
            n += nops(spec[k])
    return n


# --------------------------------------------------- coordinate systems
@st.composite
def wcses(draw, kinds=("PixelScale", "ShearWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS",
                       "AffineTransform"), scale=(0.1, 2.0), org=50.0):
    k = draw(st.sampled_from(kinds))
    d = {"wcs": k}
    if k != "JacobianWCS" and k != "AffineTransform":
        d["scale"] = draw(fl(scale[0], scale[1], 4))
    if "Shear" in k:
        d["shear"] = draw(small_shear(0.5))
    if k in ("JacobianWCS", "AffineTransform"):
        d["jac"] = draw(jacobians(scale[0], scale[1], 0.4))
    if k in ("OffsetWCS", "OffsetShearWCS", "AffineTransform"):
        if draw(st.booleans()):
            d["origin"] = [draw(fl(-org, org, 2)), draw(fl(-org, org, 2))]
        if draw(st.booleans()):
            d["world_origin"] = [draw(fl(-org, org, 2)), draw(fl(-org, org, 2))]
    if k == "Tan":
        d["scale"] = draw(fl(scale[0], scale[1], 4))
        d["jac"] = draw(jacobians(1.0, 1.0001, 0.2))
        d["origin"] = [draw(fl(-org, org, 2)), draw(fl(-org, org, 2))]
        d["ra"] = draw(fl(0.0, 360.0, 3))
        d["dec"] = draw(fl(-80.0, 80.0, 3))
    return d


def make_wcs(d, G):
    if d is None:
        return None
    k = d["wcs"]
    kw = {}
    for n in ("origin", "world_origin"):
        if n in d and k != "Tan":
            kw[n] = G.PositionD(*d[n])
    if k == "PixelScale":
        return G.PixelScale(d["scale"])
    if k == "OffsetWCS":
        return G.OffsetWCS(d["scale"], **kw)
    if k == "ShearWCS":
        return G.ShearWCS(d["scale"], G.Shear(g1=d["shear"][0], g2=d["shear"][1]))
    if k == "OffsetShearWCS":
        return G.OffsetShearWCS(d["scale"], G.Shear(g1=d["shear"][0], g2=d["shear"][1]), **kw)
    if k == "JacobianWCS":
        return G.JacobianWCS(*d["jac"])
    if k == "AffineTransform":
        return G.AffineTransform(*d["jac"], **kw)
    if k == "Tan":
        j = [d["scale"] * x for x in d["jac"]]
        aff = G.AffineTransform(*j, origin=G.PositionD(*d["origin"]))
        return G.TanWCS(aff, G.CelestialCoord(d["ra"] * G.degrees, d["dec"] * G.degrees),
                        units=G.arcsec)
    raise ValueError(k)


DTYPES = {
    "D": np.float64, "F": np.float32, "S": np.int16, "I": np.int32, "US": np.uint16,
    "UI": np.uint32, "CF": np.complex64, "CD": np.complex128,
}
