"""C19: equality, copying, printing and conversion preserve objects.

Every case builds one object twice, and a second object from a description that differs in one
value. Whether those two differ is decided by the reference library, which builds both as well."""

import contextlib
import copy
import io
import json
import pickle

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, label, require
from vlib.specs import JG, RG

NS = dict(galsim=JG, array=np.array, nan=np.nan, inf=np.inf, ndarray=np.ndarray, jnp=jnp, np=np,
          **{t: getattr(np, t) for t in ("uint8", "uint16", "uint32", "int16", "int32", "int64", "float32", "float64", "complex64", "complex128")})


def ev(x):
    with np.printoptions(precision=20, threshold=np.inf):
        return eval(repr(x), dict(NS))


def num(x):
    return np.asarray(x)


# ------------------------------------------------------------------ descriptions
@st.composite
def angles(draw):
    return dict(v=draw(S.fl(-8, 8, 3)), u=draw(st.sampled_from(["radians", "degrees", "hours", "arcmin", "arcsec"])))


def b_angle(d, G):
    return G.Angle(d["v"], getattr(G, d["u"]))


@st.composite
def units(draw):
    return dict(v=draw(st.one_of(S.fl(0.001, 4, 4), st.sampled_from([1.0, 0.5]))), name=draw(st.sampled_from([None, None, "degrees", "hours", "radians", "arcsec", "arcmin"])))


def b_unit(d, G):
    return getattr(G, d["name"]) if d["name"] else G.AngleUnit(d["v"])


@st.composite
def positions(draw):
    i = draw(st.booleans())
    v = st.integers(-30, 30) if i else st.one_of(S.fl(-30, 30, 3), st.integers(-5, 5))
    return dict(i=i, x=draw(v), y=draw(v))


def b_pos(d, G):
    return (G.PositionI if d["i"] else G.PositionD)(d["x"], d["y"])


@st.composite
def boundses(draw):
    i = draw(st.booleans())
    v = st.integers(-30, 30) if i else S.fl(-30, 30, 3)
    w = st.integers(0, 20) if i else S.fl(0, 20, 3)
    x, y = draw(v), draw(v)
    return dict(i=i, x=x, y=y, w=draw(w), h=draw(w), undef=draw(st.sampled_from([False] * 7 + [True])))


def b_bounds(d, G):
    c = G.BoundsI if d["i"] else G.BoundsD
    if d["undef"]:
        return c()
    return c(d["x"], d["x"] + d["w"], d["y"], d["y"] + d["h"])


@st.composite
def shears(draw):
    return dict(draw(S.shear_args()))


def b_shear(d, G):
    return G.Shear(**S.shear_kwargs(d, G))


@st.composite
def coords(draw):
    return dict(ra=draw(S.fl(0, 24, 4)), dec=draw(S.fl(-89, 89, 3)))


def b_coord(d, G):
    return G.CelestialCoord(d["ra"] * G.hours, d["dec"] * G.degrees)


@st.composite
def gsparams(draw):
    return dict(draw(S.gsp_dicts(maxn=6)))


def b_gsp(d, G):
    return G.GSParams(**d)


@st.composite
def profiles(draw, depth=2):
    k = draw(st.sampled_from(["leaf", "tree"]))
    if k == "leaf":
        d = draw(S.leaves())
        if draw(st.booleans()):
            d = dict(d, gsp=draw(S.gsp_dicts()))
        return d
    return draw(S.trees(depth=depth, maxops=2, deconv=True, gsp=True))


def b_prof(d, G):
    return S.build(d, G)


@st.composite
def interpolants(draw):
    k = draw(st.sampled_from(["Nearest", "Linear", "Cubic", "Quintic", "SincInterpolant", "Delta", "Lanczos", "Lanczos", "Lanczos"]))
    d = dict(k=k)
    if k == "Lanczos":
        d["n"] = draw(st.integers(1, 9))
        d["dc"] = draw(st.booleans())
    if draw(st.booleans()):
        d["gsp"] = draw(S.gsp_dicts())
    return d


def b_interp(d, G):
    kw = {"gsparams": G.GSParams(**d["gsp"])} if d.get("gsp") else {}
    if d["k"] == "Lanczos":
        return G.Lanczos(d["n"], d["dc"], **kw)
    return getattr(G, d["k"])(**kw)


@st.composite
def images(draw, dtypes=("D", "F", "I", "S", "UI", "US", "CD", "CF"), wcs=True):
    return dict(n=draw(st.integers(1, 5)), m=draw(st.integers(1, 5)), x0=draw(st.integers(-5, 5)), y0=draw(st.integers(-5, 5)), seed=draw(st.integers(1, 50)),
                dt=draw(st.sampled_from(dtypes)), wcs=draw(st.one_of(st.none(), S.wcses(), S.wcses(("Tan",)))) if wcs else None,
                const=draw(st.booleans()), pix=draw(st.integers(0, 24)), bump=0.0, undef=draw(st.sampled_from([False] * 9 + [True])) if wcs else False)


def b_image(d, G):
    if d["undef"]:
        return G.Image(dtype=S.DTYPES[d["dt"]])
    r = np.random.default_rng(d["seed"])
    a = r.uniform(0, 99, size=(d["m"], d["n"]))
    a.flat[d["pix"] % a.size] += d["bump"]
    if d["dt"][0] == "C":
        a = a + 1j * r.uniform(-9, 9, size=a.shape)
    a = a.astype(S.DTYPES[d["dt"]])
    return G.Image(jnp.asarray(a) if G is JG else a, xmin=d["x0"], ymin=d["y0"], wcs=S.make_wcs(d["wcs"], G), make_const=d["const"])


@st.composite
def iis(draw):
    d = dict(im=draw(images(("D", "F"), False)), x=draw(st.sampled_from(["quintic", "cubic", "linear", "lanczos3", "lanczos5"])),
             k=draw(st.sampled_from(["quintic", "cubic", "lanczos4"])), pad_factor=draw(st.one_of(st.sampled_from([4.0, 4.0, 2.0, 1.0]), S.fl(1, 6, 9))),
             wcs=draw(S.wcses(("PixelScale", "JacobianWCS", "ShearWCS"), (0.2, 1.0))), flux=draw(st.one_of(st.none(), S.fl(0.5, 20, 3))),
             norm=draw(st.sampled_from(["flux", "sb"])), offset=draw(st.one_of(st.none(), st.tuples(S.fl(-1, 1, 2), S.fl(-1, 1, 2)).map(list))),
             tc=draw(st.booleans()), stepk=draw(st.one_of(st.none(), S.fl(0.1, 0.9, 3))), maxk=draw(st.one_of(st.none(), S.fl(2, 9, 3))),
             ops=draw(st.lists(S.ops(("shear", "shift", "mul", "rotate")), max_size=1)))
    d["im"]["n"] += 2
    d["im"]["m"] += 2
    if draw(st.booleans()):
        d["gsp"] = draw(S.gsp_dicts())
    return d


def b_ii(d, G):
    kw = dict(x_interpolant=d["x"], k_interpolant=d["k"], pad_factor=d["pad_factor"], normalization=d["norm"], use_true_center=d["tc"])
    if d["flux"] is not None:
        kw["flux"] = d["flux"]
    if d["offset"] is not None:
        kw["offset"] = tuple(d["offset"])
    if d["stepk"]:
        kw["_force_stepk"] = d["stepk"]
    if d["maxk"]:
        kw["_force_maxk"] = d["maxk"]
    if d.get("gsp"):
        kw["gsparams"] = G.GSParams(**d["gsp"])
    o = G.InterpolatedImage(b_image(dict(d["im"], wcs=None), G), wcs=S.make_wcs(d["wcs"], G), **kw)
    for op in d["ops"]:
        o = S.apply_op(o, op, G)
    return o


@st.composite
def wcss(draw):
    k = draw(st.sampled_from(["uniform", "uniform", "uniform", "tan", "fits"]))
    if k == "uniform":
        return draw(S.wcses())
    if k == "tan":
        return draw(S.wcses(("Tan",)))
    kind = draw(st.sampled_from(["TAN", "TAN-SIP", "TPV"]))
    c = st.integers(-9, 9).map(lambda n: n * 1e-6)
    return dict(wcs="fits", kind=kind, crpix=[draw(S.fl(0, 99, 2)), draw(S.fl(0, 99, 2))], cd=[1e-5 * v for v in draw(S.jacobians(0.5, 2, 0.3))],
                ra=draw(S.fl(0, 360, 3)), dec=draw(S.fl(-80, 80, 3)), sip=[draw(c) for _ in range(6)], pv=[draw(c) for _ in range(6)])


def b_wcs(d, G):
    if d["wcs"] != "fits":
        return S.make_wcs(d, G)
    t = d["kind"]
    h = {"CTYPE1": "RA---" + t, "CTYPE2": "DEC--" + t, "CRPIX1": d["crpix"][0], "CRPIX2": d["crpix"][1], "CRVAL1": d["ra"], "CRVAL2": d["dec"],
         "CUNIT1": "deg", "CUNIT2": "deg", "CD1_1": d["cd"][0], "CD1_2": d["cd"][1], "CD2_1": d["cd"][2], "CD2_2": d["cd"][3]}
    if t == "TAN-SIP":
        h.update(A_ORDER=2, B_ORDER=2)
        for i, n in enumerate(["A_2_0", "A_0_2", "A_1_1", "B_2_0", "B_0_2", "B_1_1"]):
            h[n] = d["sip"][i]
    if t == "TPV":
        h["PV1_1"] = h["PV2_1"] = 1.0
        for i, n in enumerate(["PV1_0", "PV1_2", "PV1_4", "PV2_0", "PV2_5", "PV2_7"]):
            h[n] = d["pv"][i]
    return G.GSFitsWCS(header=G.FitsHeader(h))


DEVS = {"BaseDeviate": [], "UniformDeviate": [], "GaussianDeviate": ["mean", "sigma"], "BinomialDeviate": ["N", "p"], "PoissonDeviate": ["mean"],
        "WeibullDeviate": ["a", "b"], "GammaDeviate": ["k", "theta"], "Chi2Deviate": ["n"]}


@st.composite
def deviates(draw):
    k = draw(st.sampled_from(sorted(DEVS)))
    d = dict(k=k, seed=draw(st.integers(1, 2**30)), p={}, drawn=draw(st.integers(0, 2)))
    for n in DEVS[k]:
        d["p"][n] = draw(st.integers(1, 9)) if n == "N" else draw(S.fl(0.1, 0.9, 3)) if n == "p" else draw(S.fl(0.5, 9, 3))
    return d


def b_dev(d, G):
    o = getattr(G, d["k"])(d["seed"], **d["p"])
    if d["drawn"]:
        o.discard(d["drawn"]) if d["k"] == "BaseDeviate" else [o() for _ in range(d["drawn"])]
    return o


@st.composite
def noises(draw):
    k = draw(st.sampled_from(["GaussianNoise", "PoissonNoise", "CCDNoise", "DeviateNoise", "VariableGaussianNoise"]))
    d = dict(k=k, rng=dict(draw(deviates()), k="BaseDeviate", p={}), p={})
    for n in {"GaussianNoise": ["sigma"], "PoissonNoise": ["sky_level"], "CCDNoise": ["sky_level", "gain", "read_noise"]}.get(k, []):
        d["p"][n] = draw(S.fl(0.5, 9, 3))
    if k == "DeviateNoise":
        d["rng"] = dict(draw(deviates()))
        if d["rng"]["k"] == "BaseDeviate":
            d["rng"]["k"] = "UniformDeviate"
    if k == "VariableGaussianNoise":
        d["im"] = dict(draw(images(("F",), False)), const=False)
        if draw(st.booleans()):  # more than what is printed
            d["im"].update(n=40, m=40, pix=draw(st.integers(0, 1599)))
    return d


def b_noise(d, G):
    if d["k"] == "DeviateNoise":
        return G.DeviateNoise(b_dev(d["rng"], G))
    if d["k"] == "VariableGaussianNoise":
        return G.VariableGaussianNoise(b_dev(d["rng"], G), b_image(d["im"], G))
    return getattr(G, d["k"])(b_dev(d["rng"], G), **d["p"])


@st.composite
def photons(draw):
    n = draw(st.integers(1, 5))
    v = st.lists(S.fl(-9, 9, 3), min_size=n, max_size=n)
    d = dict(x=draw(v), y=draw(v), flux=draw(v))
    for c in (["dxdz", "dydz"], ["wavelength"], ["pupil_u", "pupil_v"], ["time"]):
        if draw(st.booleans()):
            for q in c:
                d[q] = draw(v)
    return d


def b_phot(d, G):
    n = len(d["x"])
    return G.PhotonArray(n, **{k: np.array(v) for k, v in d.items()})


@st.composite
def sensors(draw):
    return dict(z=draw(st.booleans()))


def b_sensor(d, G):
    return G.Sensor()


# ------------------------------------------------------------------ what an object is, read from outside
def near_points():
    return [(0.0, 0.0), (0.3, -0.7), (1.1, 0.4)]


def o_gsp(o):
    return [getattr(o, f) for f in S.GSP_FIELDS]


def o_prof(o):
    out = [num(o.flux), num(o.stepk), num(o.maxk)] + o_gsp(o.gsparams)
    out += [num(o.kValue(x, y)) for x, y in near_points()]
    return out


def o_wcs(w):
    out = [type(w).__name__]
    pts = [(1.0, 2.0), (-7.5, 30.0), (64.0, -3.25)]
    if w.isCelestial():
        for p in pts:
            q = w.toWorld(JG.PositionD(*p))
            out += [num(q.ra.rad), num(q.dec.rad)]
    else:
        for p in pts:
            q = w.toWorld(JG.PositionD(*p))
            out += [num(q.x), num(q.y)]
    return out


def o_image(o):
    return [num(o.array), str(num(o.array).dtype), str(np.dtype(o.dtype)), o.bounds.isDefined(), o.isconst, o.iscontiguous] + (
        [num(o.xmin), num(o.xmax), num(o.ymin), num(o.ymax)] if o.bounds.isDefined() else []) + ([] if o.wcs is None else o_wcs(o.wcs))


def o_dev(o):
    o = o.duplicate()
    out = [num(v) for _, v in sorted(o._params.items())] if hasattr(o, "_params") else []
    return out + [num(o.raw()), num(o.raw())] + ([] if type(o).__name__ == "BaseDeviate" else [num(o())])


def o_noise(o):
    out = [type(o).__name__]
    for n in ("sigma", "sky_level", "gain", "read_noise"):
        if hasattr(o, n):
            out.append(num(getattr(o, n)))
    if hasattr(o, "var_image"):
        out += o_image(o.var_image)
    return out + o_dev(o.rng)


def o_phot(o):
    out = [num(o.x), num(o.y), num(o.flux)]
    for c, h in (("dxdz", "hasAllocatedAngles"), ("dydz", "hasAllocatedAngles"), ("wavelength", "hasAllocatedWavelengths"), ("pupil_u", "hasAllocatedPupil"),
                 ("pupil_v", "hasAllocatedPupil"), ("time", "hasAllocatedTimes")):
        if getattr(o, h)():
            out += [c, num(getattr(o, c))]
    return out


def o_bounds(o):
    return [type(o).__name__, o.isDefined()] + ([num(o.xmin), num(o.xmax), num(o.ymin), num(o.ymax)] if o.isDefined() else [])


def o_interp(o):
    return [type(o).__name__] + ([] if type(o).__name__ == "Delta" else [num(o.xval(0.37)), num(o.kval(1.3))]) + [num(o.xrange)] + o_gsp(o.gsparams)


def o_ii(o):
    return o_prof(o) + ([] if not isinstance(o, JG.InterpolatedImage) else [num(o.image.array), repr(o.x_interpolant), repr(o.k_interpolant)]) + [num(o.xValue(0.3, -0.2))]


# name -> (strategy, builder, observables, hashable, exact equality of the reference's objects is the oracle)
KINDS = {
    "angle": (angles, b_angle, lambda o: [num(o.rad)]),
    "unit": (units, b_unit, lambda o: [num(o.value)]),
    "position": (positions, b_pos, lambda o: [type(o).__name__, num(o.x), num(o.y)]),
    "bounds": (boundses, b_bounds, o_bounds),
    "shear": (shears, b_shear, lambda o: [num(o.g1), num(o.g2)]),
    "coord": (coords, b_coord, lambda o: [num(o.ra.rad), num(o.dec.rad)]),
    "gsparams": (gsparams, b_gsp, o_gsp),
    "profile": (profiles, b_prof, o_prof),
    "interpolant": (interpolants, b_interp, o_interp),
    "image": (images, b_image, o_image),
    "ii": (iis, b_ii, o_ii),
    "wcs": (wcss, b_wcs, o_wcs),
    "deviate": (deviates, b_dev, o_dev),
    "noise": (noises, b_noise, o_noise),
    "photons": (photons, b_phot, o_phot),
    "sensor": (sensors, b_sensor, lambda o: []),
}
MUTABLE = ("image", "deviate", "noise", "photons")


def same(what, got, want, tol=0.0):
    require(len(got) == len(want), "%s: %d fields instead of %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, np.ndarray):
            close("%s, field %d" % (what, i), g, w, tol, tol * 1e-3)
        elif isinstance(w, float):
            close("%s, field %d" % (what, i), g, w, tol)
        else:
            equal("%s, field %d" % (what, i), g, w)


def yes(what, cond):
    require(bool(cond), "%s is false", what)


def eqs(what, a, b, want):
    """== and != both ways agree with `want`."""
    for x, y, n in ((a, b, ""), (b, a, " (other way round)")):
        r = bool(x == y)
        require(r == want, "%s%s: == gives %s\n%s\n%s", what, n, r, short(x), short(y))
        r = bool(x != y)
        require(r != want, "%s%s: != gives %s\n%s\n%s", what, n, r, short(x), short(y))


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def hashes(what, a, b, kind):
    if kind in MUTABLE:
        return
    require(hash(a) == hash(b), "%s: equal objects hash differently\n%s\n%s", what, short(a), short(b))


# ------------------------------------------------------------------ one object and its copies
@st.composite
def idcase(draw, kinds):
    k = draw(st.sampled_from(kinds))
    return dict(kind=k, d=draw(KINDS[k][0]()))


def hashable(o):
    try:
        hash(o)
        return True
    except TypeError:
        return False


def identity(case):
    k = case["kind"]
    _, mk, obs = KINDS[k]
    a = mk(case["d"], JG)
    a2 = mk(case["d"], JG)
    ref = mk(case["d"], RG)
    label(k)
    want = obs(a)
    eqs("%s built twice" % k, a, a2, True)
    hashes("%s built twice" % k, a, a2, k)
    if k == "sensor":
        pass
    # as the reference: usable as a key or not
    equal("%s can be hashed" % k, hashable(a), hashable(ref))
    for other in (None, 5, "x", object(), (1, 2)):
        require(not bool(a == other) and bool(a != other), "%s equals %r", short(a), other)
    dup = dict(copy=copy.copy(a), deepcopy=copy.deepcopy(a), pickle=pickle.loads(pickle.dumps(a)))
    if hasattr(a, "copy") and k not in ("noise",):
        dup[".copy()"] = a.copy()
    if hasattr(a, "duplicate"):
        dup[".duplicate()"] = a.duplicate()
    leaves, tree = jax.tree_util.tree_flatten(a)
    dup["flattening"] = jax.tree_util.tree_unflatten(tree, leaves)
    dup["printed form"] = ev(a)
    for n, b in dup.items():
        equal("type of the %s of a %s" % (n, k), type(b).__name__, type(a).__name__)
        got, w = obs(b), want
        drop = ()
        if k == "image" and n == ".copy()":  # (a copy may be written to)
            drop = (4,)
        if k == "image" and n == "printed form" and case["d"]["undef"]:  # (an undefined image is printed without its type, as in the reference)
            drop = (0, 1, 2)
        got, w = [v for i, v in enumerate(got) if i not in drop], [v for i, v in enumerate(w) if i not in drop]
        same("%s of a %s" % (n, k), got, w, 1e-14 if n == "printed form" else 0.0)
        if k == "image" and n == ".copy()" and a.isconst:
            continue
        if not (k == "ii" and n == "printed form"):  # (printed with the flux found, which rounds; so does the reference)
            eqs("%s of a %s" % (n, k), a, b, True)
            hashes("%s of a %s" % (n, k), a, b, k)
    same("%s after being copied" % k, obs(a), want)
    # values given as numpy or JAX scalars are the same values
    require(len(str(a)) > 0, "empty str")
    # conversion to the other library and back
    if hasattr(a, "to_galsim"):
        with contextlib.suppress(NotImplementedError):
            g = a.to_galsim()
            b = type(a).from_galsim(g) if k != "wcs" else JG.BaseWCS.from_galsim(g)
            back = obs(b)
            w = want
            if k == "image":
                # (constness is not part of the conversion)
                back, w = [v for i, v in enumerate(back) if i not in (4,)], [v for i, v in enumerate(w) if i not in (4,)]
            same("conversion of a %s and back" % k, back, w, 1e-13)
            if not (k == "image" and a.isconst):
                close_eq("conversion of a %s and back" % k, a, b, k)
            refeq(k, g, ref)
            c = type(a).from_galsim(ref) if k != "wcs" else JG.BaseWCS.from_galsim(ref)
            same("conversion of the reference's %s" % k, [v for i, v in enumerate(obs(c)) if k != "image" or i != 4],
                 [v for i, v in enumerate(want) if k != "image" or i != 4], 1e-12)
            label("conversion")
    return True


def close_eq(what, a, b, k):
    # a shear or a coordinate goes through another representation, which may round
    if k in ("shear", "coord", "wcs", "angle", "image"):
        return
    eqs(what, a, b, True)
    hashes(what, a, b, k)


def refeq(k, g, ref):
    """The converted object is what the reference builds itself."""
    require(type(g).__name__ == type(ref).__name__, "to_galsim of a %s gives %r instead of %r", k, g, ref)
    if k == "image":
        close("to_galsim's pixels", g.array, ref.array, 1e-12)
        equal("to_galsim's type", g.array.dtype, ref.array.dtype)
        equal("to_galsim's bounds", g.bounds, ref.bounds)
        g, ref = g.wcs, ref.wcs
        equal("to_galsim's wcs", g is None, ref is None)
        if g is None:
            return
        k = "wcs"
    if k == "wcs":
        for p in ((1.0, 2.0), (-7.5, 30.0)):
            a, b = (w.toWorld(RG.PositionD(*p)) for w in (g, ref))
            if ref.isCelestial():
                require(a.distanceTo(b).rad < 1e-12, "to_galsim of a wcs: %s instead of %s", a, b)
            else:
                close("to_galsim of a wcs", [a.x, a.y], [b.x, b.y], 1e-11, 1e-11)
        return
    if k == "shear":
        return close("to_galsim of a shear", [g.g1, g.g2], [ref.g1, ref.g2], 1e-12, 1e-14)
    if k == "angle":
        return close("to_galsim of an angle", g.rad, ref.rad, 1e-14)
    if k == "coord":
        return close("to_galsim of a coordinate", [g.ra.rad, g.dec.rad], [ref.ra.rad, ref.dec.rad], 1e-14)
    require(g == ref, "to_galsim of a %s gives %r instead of %r", k, g, ref)


# ------------------------------------------------------------------ two objects differing in one value
def paths(d, p=()):
    """The places of a description that hold a value."""
    out = []
    if isinstance(d, dict):
        for k in sorted(d):
            if k in ("leaf", "kind") or k in ("wcs",) and isinstance(d[k], str):
                continue
            out += paths(d[k], p + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            if isinstance(v, str):
                continue
            out += paths(v, p + (i,))
    elif d is not None:
        out.append(p)
    return out


STR = {"radians": "degrees", "degrees": "hours", "hours": "radians", "arcmin": "arcsec", "arcsec": "arcmin", "quintic": "cubic", "cubic": "quintic",
       "linear": "quintic", "lanczos3": "lanczos5", "lanczos4": "quintic", "lanczos5": "lanczos3", "flux": "sb", "sb": "flux",
       "D": "F", "F": "D", "I": "S", "S": "I", "UI": "US", "US": "UI", "CD": "CF", "CF": "CD",
       "Nearest": "Linear", "Linear": "Nearest", "Cubic": "Quintic", "Quintic": "Cubic", "SincInterpolant": "Delta", "Delta": "SincInterpolant"}


def mutate(d, path, how):
    """`d` with the value at `path` changed."""
    d = json.loads(json.dumps(d))
    o = d
    for p in path[:-1]:
        o = o[p]
    v, last = o[path[-1]], path[-1]
    if isinstance(v, bool):
        n = not v
    elif isinstance(v, int) and not (path[0] == "gsp" or "gsp" in path or "topgsp" in path):
        n = v + (1 if how else 2)
    elif isinstance(v, int):
        n = v * 2
    elif isinstance(v, float):
        n = v * 1.0625 + (0.0 if v else 0.125)
        if how == 2 and v:
            n = float(np.nextafter(v, 10 * v))  # the smallest difference there is
    elif isinstance(v, str):
        if v not in STR:
            raise Inconclusive("no other value")
        n = STR[v]
    else:
        raise Inconclusive("no value")
    o[last] = n
    return d


@st.composite
def diffcase(draw, kinds):
    k = draw(st.sampled_from(kinds))
    d = draw(KINDS[k][0]())
    ps = paths(d)
    p = list(draw(st.sampled_from(ps))) if ps else []
    return dict(kind=k, d=d, p=p, how=draw(st.integers(0, 2)))


def differ(case):
    k, d, p = case["kind"], case["d"], tuple(case["p"])
    if not p or k == "sensor":
        raise Inconclusive("nothing to change")
    _, mk, obs = KINDS[k]
    e = mutate(d, p, case["how"])
    a = mk(d, JG)
    try:
        r1, r2 = mk(d, RG), mk(e, RG)
    except Exception:
        raise Inconclusive("the reference refuses")
    b = mk(e, JG)
    same_r = bool(r1 == r2)
    # equal objects are interchangeable, whatever the reference says
    if bool(a == b):
        u, v = obs(a), obs(b)
        if k == "image":  # equality is of the values, not of their type
            u, v = u[:1] + u[3:], v[:1] + v[3:]
        same("%ss that compare equal" % k, u, v, 1e-9)
    if same_r:
        label("reference: equal")
        # not a defining value in this object (or the two are the same thing written differently)
        if k in MUTABLE or not bool(a == b):
            if not bool(a == b):
                label("this library: different")
            raise Inconclusive("the reference finds them equal")
        eqs("two %ss the reference finds equal" % k, a, b, True)
        hashes("two equal %ss" % k, a, b, k)
        return True
    eqs("two %ss that differ in %s" % (k, "/".join(map(str, p))), a, b, False)
    label(k)
    return True


# ------------------------------------------------------------------ numbers, NumPy and JAX scalars alike
@st.composite
def scalarcase(draw):
    return dict(k=draw(st.sampled_from(["Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction", "PositionD", "Angle", "Shear", "PixelScale",
                                        "JacobianWCS", "AngleUnit", "BoundsD", "BoundsI", "PositionI", "shift", "Sum", "OffsetWCS", "Affine", "Coord", "GSParams", "ShearWCS", "OffsetShearWCS", "Tan"])),
                v=[draw(st.integers(1, 12)) / 4.0 for _ in range(4)], w=[draw(st.integers(-9, 9)) for _ in range(4)], form=draw(st.sampled_from(["np", "jnp", "np0d", "int"])))


def scalars(case):
    v, w = case["v"], [float(x) for x in case["w"]]
    if case["k"] == "GSParams" and case["form"] in ("jnp", "np0d"):
        raise Inconclusive("accuracy parameters are static")
    conv = {"np": np.float64, "jnp": jnp.asarray, "np0d": lambda x: jnp.asarray([x])[0], "int": lambda x: int(x) if x == int(x) else x}[case["form"]]
    make = {
        "Gaussian": lambda c: JG.Gaussian(sigma=c(v[0]), flux=c(v[1])),
        "Exponential": lambda c: JG.Exponential(scale_radius=c(v[0]), flux=c(v[1])),
        "Moffat": lambda c: JG.Moffat(beta=c(v[0] + 1.5), scale_radius=c(v[1]), flux=c(v[2])),
        "Spergel": lambda c: JG.Spergel(nu=c(v[0] / 4), half_light_radius=c(v[1]), flux=c(v[2])),
        "Box": lambda c: JG.Box(c(v[0]), c(v[1]), flux=c(v[2])),
        "Pixel": lambda c: JG.Pixel(c(v[0]), flux=c(v[1])),
        "DeltaFunction": lambda c: JG.DeltaFunction(flux=c(v[0])),
        "PositionD": lambda c: JG.PositionD(c(w[0]), c(v[1])),
        "PositionI": lambda c: JG.PositionI(c(w[0]), c(w[1])),
        "Angle": lambda c: JG.Angle(c(w[0] / 3), JG.radians),
        "AngleUnit": lambda c: JG.AngleUnit(c(v[0])),
        "Shear": lambda c: JG.Shear(g1=c(w[0] / 32), g2=c(w[1] / 32)),
        "PixelScale": lambda c: JG.PixelScale(c(v[0])),
        "JacobianWCS": lambda c: JG.JacobianWCS(c(v[0]), c(0.25), c(-0.5), c(v[1])),
        "OffsetWCS": lambda c: JG.OffsetWCS(c(v[0]), JG.PositionD(c(w[0]), c(w[1]))),
        "Affine": lambda c: JG.AffineTransform(c(v[0]), c(0.25), c(-0.5), c(v[1]), origin=JG.PositionD(c(w[0]), c(w[1]))),
        "BoundsD": lambda c: JG.BoundsD(c(w[0]), c(w[0] + v[0]), c(w[1]), c(w[1] + v[1])),
        "BoundsI": lambda c: JG.BoundsI(c(w[0]), c(w[0] + 4.0), c(w[1]), c(w[1] + 5.0)),
        "shift": lambda c: JG.Gaussian(sigma=c(v[0])).shift(c(w[0]), c(v[1])) * c(v[2]),
        "Sum": lambda c: JG.Sum([JG.Gaussian(sigma=c(v[0])), JG.Exponential(half_light_radius=c(v[1]))]),
        "GSParams": lambda c: JG.GSParams(folding_threshold=c(v[0] / 128), stepk_minimum_hlr=c(v[1]), kvalue_accuracy=c(v[2] / 2**20)),
        "ShearWCS": lambda c: JG.ShearWCS(c(v[0]), JG.Shear(g1=c(w[0] / 32), g2=c(w[1] / 32))),
        "OffsetShearWCS": lambda c: JG.OffsetShearWCS(c(v[0]), JG.Shear(g1=c(w[0] / 32), g2=c(w[1] / 32)), JG.PositionD(c(w[2]), c(w[3]))),
        "Tan": lambda c: JG.TanWCS(JG.AffineTransform(c(v[0]), c(0.25), c(-0.5), c(v[1])), JG.CelestialCoord(JG.Angle(c(v[2]), JG.radians), JG.Angle(c(w[0] / 8), JG.radians))),
        "Coord": lambda c: JG.CelestialCoord(JG.Angle(c(v[0]), JG.radians), JG.Angle(c(w[0] / 8), JG.radians)),
    }[case["k"]]
    a, b = make(float), make(conv)
    eqs("%s of numbers and of %s" % (case["k"], case["form"]), a, b, True)
    hashes("%s of numbers and of %s" % (case["k"], case["form"]), a, b, "value")
    eqs("printed form", ev(b), a, True)
    # as what a compiled function returns
    if case["k"] == "GSParams":
        return True
    t = jax.jit(lambda o: o)(a)
    eqs("%s returned by a compiled function" % case["k"], a, t, True)
    hashes("%s returned by a compiled function" % case["k"], a, t, "value")
    return len({a, b, t}) == 1


# ------------------------------------------------------------------ containers of equal and unequal things
@st.composite
def crosscase(draw):
    """Small values, so that descriptions often describe equal objects of different kinds."""
    n = st.integers(-2, 3)
    def one():
        k = draw(st.sampled_from(["PositionI", "PositionD", "BoundsI", "BoundsD", "Angle", "Shear", "PixelScale", "JacobianWCS", "OffsetWCS", "AffineTransform", "ShearWCS",
                                  "OffsetShearWCS", "Gaussian", "Exponential", "Box", "Pixel", "DeltaFunction", "Spergel", "Moffat", "sum1", "gsp", "scaled", "conv", "deconv", "AngleUnit"]))
        return [k, draw(n), draw(n)]
    return dict(items=[one() for _ in range(2)] + [one()] , same=draw(st.booleans()))


def b_cross(it, G):
    k, a, b = it
    s = abs(a) / 2.0 + 0.5
    return {
        "PositionI": lambda: G.PositionI(a, b), "PositionD": lambda: G.PositionD(a, b), "BoundsI": lambda: G.BoundsI(a, a + 3, b, b + 3), "BoundsD": lambda: G.BoundsD(a, a + 3, b, b + 3),
        "Angle": lambda: G.Angle(a, G.radians), "AngleUnit": lambda: G.AngleUnit(s), "Shear": lambda: G.Shear(g1=a / 8.0, g2=b / 8.0), "PixelScale": lambda: G.PixelScale(s),
        "JacobianWCS": lambda: G.JacobianWCS(s, b * 0.0, b * 0.0, s), "OffsetWCS": lambda: G.OffsetWCS(s, G.PositionD(b, b)), "ShearWCS": lambda: G.ShearWCS(s, G.Shear(g1=0.0, g2=b / 8.0)),
        "OffsetShearWCS": lambda: G.OffsetShearWCS(s, G.Shear(g1=0.0, g2=b / 8.0)), "AffineTransform": lambda: G.AffineTransform(s, 0.0, 0.0, s, origin=G.PositionD(b, b)),
        "Gaussian": lambda: G.Gaussian(sigma=s), "Exponential": lambda: G.Exponential(scale_radius=s), "Box": lambda: G.Box(s, s), "Pixel": lambda: G.Pixel(s),
        "DeltaFunction": lambda: G.DeltaFunction(flux=s), "Spergel": lambda: G.Spergel(nu=0.5, scale_radius=s), "Moffat": lambda: G.Moffat(beta=2.5, scale_radius=s),
        "sum1": lambda: G.Sum([G.Gaussian(sigma=s), G.Box(s, s)]), "gsp": lambda: G.GSParams(maxk_threshold=1e-3 * s), "scaled": lambda: G.Gaussian(sigma=s) * (2.0 + b * 0),
        "conv": lambda: G.Convolve([G.Gaussian(sigma=s), G.Box(s, s)], real_space=False), "deconv": lambda: G.Deconvolve(G.Gaussian(sigma=s)),
    }[k]()


def cross(case):
    its = [list(i) for i in case["items"]]
    if case["same"]:
        its[1] = [its[0][0], its[0][1], its[1][2]]
    j = [b_cross(i, JG) for i in its]
    r = [b_cross(i, RG) for i in its]
    nontrivial = False
    for p in range(len(its)):
        for q in range(len(its)):
            want = bool(r[p] == r[q])
            eqs("%s and %s" % (its[p], its[q]), j[p], j[q], want)
            if want:
                hashes("%s and %s" % (its[p], its[q]), j[p], j[q], "value")
                nontrivial |= p != q
    distinct = sum(not any(bool(r[p] == r[q]) for q in range(p)) for p in range(len(its)))
    equal("distinct members of the set", len(set(j)), distinct)
    return nontrivial or len({i[0] for i in its}) > 1


HEAVY = ["profile", "ii", "wcs", "image"]
LIGHT = [k for k in KINDS if k not in HEAVY]
# ------------------------------------------------------------------ photon arrays of a fixed size
@st.composite
def padphotcase(draw):
    m = draw(st.integers(1, 6))
    n1, n2 = draw(st.integers(1, m)), draw(st.integers(1, m))
    v = st.lists(S.fl(-9, 9, 3), min_size=m, max_size=m)
    flux = draw(st.one_of(v, st.just([0.0] * m)))
    d = dict(x=draw(v), y=draw(v), flux=flux)
    if draw(st.booleans()):
        d["time"] = draw(v)
    return dict(m=m, n1=n1, n2=n2, cols=d)


def padphot(case):
    """Arrays of n1 and n2 photons are equal exactly when n1 == n2, however many slots they are kept in."""
    m, d = case["m"], case["cols"]

    def mk(n, tail):
        with JG.photon_array.fixed_photon_array_size(m):
            return JG.PhotonArray(n, **{k: jnp.array([v[i] if i < n or tail else 0.0 for i in range(m)]) for k, v in d.items()})

    n1, n2 = case["n1"], case["n2"]
    for tail in (True, False):
        a, b = mk(n1, tail), mk(n2, tail)
        eq = bool(a == b)
        require(eq == bool(b == a) and eq != bool(a != b), "== of photon arrays is not symmetric or contradicts !=")
        require(eq == (n1 == n2), "arrays of %d and %d photons in %d slots: == is %s", n1, n2, m, eq)
        require(bool(a == mk(n1, tail)), "two builds of one photon array are unequal")
        label("same size" if n1 == n2 else "other size")
    return True


TESTS = [
    Test("identity_light", lambda: idcase(LIGHT), identity, 240, 8000, "always", cost=2.0),
    Test("identity_heavy", lambda: idcase(HEAVY), identity, 160, 4000, "always", cost=8.0),
    Test("differ_light", lambda: diffcase(LIGHT), differ, 400, 12000, "a comparison with the reference's verdict"),
    Test("differ_heavy", lambda: diffcase(HEAVY), differ, 320, 10000, "a comparison with the reference's verdict", cost=3.0),
    Test("scalars", scalarcase, scalars, 160, 4000, "always"),
    Test("padded_photons", padphotcase, padphot, 64, 2000, "always"),
    Test("cross", crosscase, cross, 200, 6000, "equal objects, or objects of different kinds", cost=2.0),
]
