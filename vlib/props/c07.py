"""C07: images, as operation sequences run on both libraries."""

import operator
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, close, label
from vlib.specs import JG, RG

warnings.filterwarnings("ignore")
N = 3
DT = dict(S.DTYPES)
KINDS = list(DT)
SHAPES = [(3, 4), (4, 3), (4, 4), (2, 5), (1, 1)]  # (nrow, ncol)
ALIAS = {"D": "ImageD", "F": "ImageF", "S": "ImageS", "I": "ImageI", "US": "ImageUS",
         "UI": "ImageUI", "CF": "ImageCF", "CD": "ImageCD"}

slot = st.integers(0, N - 1)
sval = st.integers(-9, 9)
qval = st.integers(-36, 36).map(lambda n: n / 4.0)


@st.composite
def scalars(draw):
    """A scalar operand, tagged with its Python or NumPy type."""
    t = draw(st.sampled_from(["i", "f", "f", "c", "nf", "nd", "ni", "ns"]))
    v = draw(sval) if t in ("i", "ni", "ns") else draw(qval)
    return [t, v]


def mk_scalar(s):
    t, v = s
    return {"i": int, "f": float, "c": lambda x: complex(x, 0.5), "nf": np.float32,
            "nd": np.float64, "ni": np.int32, "ns": np.int16}[t](v)


def mk_array(seed, shape, k):
    r = np.random.RandomState(seed)
    if k in ("US", "UI"):
        return r.randint(0, 12, size=shape).astype(DT[k])
    if k in ("S", "I"):
        return r.randint(-9, 10, size=shape).astype(DT[k])
    a = r.randint(-20, 21, size=shape) / 4.0
    if k in ("CF", "CD"):
        a = a + 1j * r.randint(-20, 21, size=shape) / 4.0
    return a.astype(DT[k])


WCS = st.one_of(
    st.none(),
    S.wcses(kinds=("PixelScale", "PixelScale", "OffsetWCS", "ShearWCS", "JacobianWCS",
                   "OffsetShearWCS", "AffineTransform")),
)
corner = st.integers(-4, 6)
kind = st.sampled_from(KINDS)
shape = st.sampled_from(SHAPES)
seed = st.integers(0, 999)

BIN = ["add", "sub", "mul", "truediv", "floordiv", "mod", "and_", "or_", "xor"]
IBIN = ["iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "iand", "ior", "ixor"]


@st.composite
def construct(draw, k):
    how = draw(st.sampled_from(["nm", "nmkw", "bounds", "boundskw", "array", "array", "array",
                                "arraykw", "arraybounds", "list", "image", "image", "imagekw", "alias",
                                "empty", "_image"]))
    d = {"how": how, "k": draw(kind), "shape": draw(shape), "seed": draw(seed), "at": [draw(corner), draw(corner)]}
    d["setat"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        d["dtype"] = draw(kind)
    if draw(st.integers(0, 3)) == 0:
        d["init"] = draw(sval)
    if draw(st.integers(0, 3)) == 0:
        d["scale"] = draw(st.sampled_from([0.2, 1.0, 2]))
    if draw(st.integers(0, 3)) == 0:
        d["wcs"] = draw(WCS)
    if draw(st.integers(0, 6)) == 0:
        d["const"] = True
    if draw(st.integers(0, 12)) == 0:
        d["fault"] = draw(st.sampled_from(["ncol only", "float ncol", "bad kw", "bad dtype", "bad bounds",
                                           "bad wcs", "wrong size", "3 args"]))
    return d


@st.composite
def op(draw):
    o = draw(st.sampled_from(
        ["new"] * 4 + ["bin"] * 4 + ["rbin"] + ["ibin"] * 6 + ["pow", "ipow", "neg", "pos"]
        + ["get"] * 2 + ["set"] * 3 + ["addv"] + ["sub"] * 3 + ["setsub"] * 3 + ["fill", "zero", "invert", "repneg"]
        + ["copyfrom", "shift", "shift", "center", "center", "origin", "origin", "resize", "copy", "copyopt", "copyopt"]
        + ["transpose", "flip_lr", "flip_ud", "rot_cw", "rot_ccw", "rot_180", "real", "imag", "conjugate"]
        + ["pixcen", "setscale", "setwcs", "setarray", "eq", "badkey"]))
    d = {"o": o, "i": draw(slot), "j": draw(slot), "t": draw(slot)}
    if o == "new":
        d["new"] = draw(construct(0))
    elif o in ("bin", "rbin", "ibin"):
        d["f"] = draw(st.sampled_from(IBIN if o == "ibin" else BIN))
        if o == "rbin":
            d["f"] = draw(st.sampled_from(["add", "sub", "mul", "truediv", "floordiv", "mod"]))
            d["s"] = draw(scalars())
            if d["s"][0] in ("nf", "nd", "ni", "ns"):
                # np.float64(2) - image is NumPy's ufunc on an object, not an Image method
                d["s"][0] = "f"
        elif draw(st.booleans()):
            d["s"] = draw(scalars())
    elif o in ("pow", "ipow"):
        d["p"] = draw(st.sampled_from([0, 1, 2, 3, 2.0, 0.5, -1.0, -2.0]))
    elif o in ("get", "set", "addv"):
        d["at"] = [draw(st.integers(-1, 5)), draw(st.integers(-1, 5))]
        d["how"] = draw(st.integers(0, 4))
        d["v"] = draw(st.one_of(sval, qval))
    elif o in ("sub", "setsub"):
        d["b"] = [draw(st.integers(-1, 4)), draw(st.integers(1, 5)), draw(st.integers(-1, 4)), draw(st.integers(1, 5))]
        d["fit"] = draw(st.integers(0, 5)) > 0
        d["how"] = draw(st.integers(0, 1))
        if o == "setsub":
            d["k"] = draw(kind)
            d["seed"] = draw(seed)
            d["bad"] = draw(st.integers(0, 9)) == 0
    elif o == "fill":
        d["v"] = draw(st.one_of(sval, qval))
    elif o == "repneg":
        d["v"] = draw(st.sampled_from([0, 1, 2.5]))
    elif o in ("shift", "center", "origin"):
        d["at"] = [draw(corner), draw(corner)]
        d["how"] = draw(st.integers(0, 3))
    elif o == "resize":
        d["shape"] = draw(shape)
        d["at"] = [draw(corner), draw(corner)]
        d["wcs"] = draw(WCS)
    elif o == "copyopt":
        if draw(st.booleans()):
            d["wcs"] = draw(WCS)
        if draw(st.integers(0, 3)) == 0:
            d["scale"] = draw(st.sampled_from([0.3, 1.0]))
        if draw(st.integers(0, 2)) == 0:
            d["origin"] = [draw(corner), draw(corner)]
        if draw(st.integers(0, 2)) == 0:
            d["center"] = [draw(corner), draw(corner)]
        if draw(st.integers(0, 2)) == 0:
            d["dtype"] = draw(kind)
        d["const"] = draw(st.integers(0, 3)) == 0
    elif o == "setscale":
        d["v"] = draw(st.sampled_from([0.2, 1.0, 3]))
    elif o == "setwcs":
        d["wcs"] = draw(WCS)
    elif o == "setarray":
        d["k"] = draw(kind)
        d["seed"] = draw(seed)
    return d


class Skip(Exception):
    """The step's result is not defined (overflow, complex to real, ...)."""


def rng_of(dt):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return i.min, i.max
    return None


def judge_cast(vals, dt, rounding=True):
    """Skip when casting vals to dt is not a well-defined operation."""
    vals = np.asarray(vals)
    dt = np.dtype(dt)
    if vals.dtype.kind == "c" and dt.kind != "c":
        raise Skip("complex to real")
    if dt.kind in "iu" and vals.dtype.kind in "iuf" and vals.size:
        lo, hi = rng_of(dt)
        v = vals.astype(float)
        if not np.all(np.isfinite(v)) or v.min() < lo or v.max() > hi:
            raise Skip("out of range")
        if vals.dtype.kind == "f":
            fr = np.abs(v - np.floor(v) - 0.5) if rounding else np.abs(v - np.round(v))
            if np.any((fr < 1e-3) & (fr != 0)):
                raise Skip("rounding boundary")


def narr(x):
    return x.array if isinstance(x, RG.Image) else x


def judge_binary(f, a, b, target=None):
    """a, b: NumPy operands. Skips combinations whose value is undefined or
    where NumPy and JAX differ by definition."""
    A, B = np.asarray(a), np.asarray(b)
    if f in ("floordiv", "mod", "and_", "or_", "xor"):
        if A.dtype.kind not in "iu" or B.dtype.kind not in "iu":
            if not (f in ("floordiv", "mod") and isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
                raise Skip("non-integer // and bit operations")
            raise Skip("refused")
    if f in ("floordiv", "mod") and np.any(B == 0):
        raise Skip("integer division by zero")
    for x, y in ((a, B), (b, A)):
        if isinstance(x, int) and x < 0 and y.dtype.kind == "u":
            raise Skip("negative scalar with unsigned")
        if np.asarray(x).dtype.kind == "c" and y.dtype.kind != "c" and target is not None \
                and np.dtype(target).kind != "c":
            raise Skip("complex to real")
    fn = getattr(operator, f)
    with np.errstate(all="ignore"):
        r = fn(a, b)
    if r.dtype.kind in "fc":
        # division by zero: inf/nan conventions of complex arithmetic differ
        if r.dtype.kind == "c" and not np.all(np.isfinite(r)):
            raise Skip("complex infinity")
    if r.dtype.kind in "iu" and r.dtype != np.int32:
        with np.errstate(all="ignore"):
            wide = fn(np.asarray(a).astype(np.int64), np.asarray(b).astype(np.int64))
        lo, hi = rng_of(r.dtype)
        if wide.size and (wide.min() < lo or wide.max() > hi) and A.dtype != B.dtype:
            raise Skip("mixed integer overflow")
    if r.dtype.kind in "iu":
        with np.errstate(all="ignore"):
            wide = fn(np.asarray(a).astype(np.int64), np.asarray(b).astype(np.int64))
        if wide.size and max(abs(int(wide.min())), abs(int(wide.max()))) > 2**31 - 1 and A.dtype != B.dtype:
            raise Skip("mixed integer overflow")
    if target is not None and f in ("and_", "or_", "xor") and not np.can_cast(r.dtype, target, "same_kind"):
        raise Skip("NumPy casting rule")
    if target is not None:
        if A.dtype != B.dtype or f == "truediv":
            judge_cast(r, target)
    return r


def bnds(G, at, w):
    return G.BoundsI(at[0], at[0] + w[0] - 1, at[1], at[1] + w[1] - 1)


def mk(d, G, slots):
    how, k = d["how"], d["k"]
    nrow, ncol = d["shape"]
    kw = {}
    fault = d.get("fault")
    dt = DT.get(d.get("dtype"))
    if dt is not None and how != "alias":
        kw["dtype"] = dt
    if "init" in d:
        kw["init_value"] = d["init"]
    if "scale" in d:
        kw["scale"] = d["scale"]
    if "wcs" in d:
        kw["wcs"] = S.make_wcs(d["wcs"], G)
    if d.get("const") and how in ("array", "arraykw", "arraybounds", "list"):
        kw["make_const"] = True
    at = dict(xmin=d["at"][0], ymin=d["at"][1])
    if fault == "bad kw":
        kw["nonsense"] = 1
    if fault == "bad dtype":
        kw["dtype"] = np.int8
    if fault == "bad wcs" and how != "_image":
        kw["wcs"] = 0.3
        kw.pop("scale", None)
    a = mk_array(d["seed"], (nrow, ncol), k)
    if how in ("array", "arraykw", "arraybounds", "list", "_image") and "dtype" in kw and fault != "bad dtype":
        # the library's own rounding when narrowing is documented (jax rounds)
        judge_cast(a, kw["dtype"])
        if G is RG and np.dtype(kw["dtype"]).kind in "iu":
            a = np.around(a)
    if "init" in d and d["init"] < 0 and how in ("nm", "nmkw", "bounds", "boundskw"):
        if np.dtype(kw.get("dtype", np.float32)).kind == "u":
            raise Skip("negative fill of unsigned")
    b = bnds(G, d["at"], (ncol + (1 if fault == "wrong size" else 0), nrow))
    if fault == "bad bounds":
        b = "BoundsI(1,2,1,2)"
    if fault == "3 args":
        return G.Image(3, 4, 5)
    if how == "nm":
        if fault == "float ncol":
            ncol = ncol + 0.5
        return G.Image(ncol, nrow, **(at if d["setat"] else {}), **kw)
    if how == "nmkw":
        if fault == "ncol only":
            return G.Image(ncol=ncol, **kw)
        return G.Image(ncol=ncol, nrow=nrow, **(at if d["setat"] else {}), **kw)
    if how == "bounds":
        return G.Image(b, **kw)
    if how == "boundskw":
        return G.Image(bounds=b, **kw)
    if how == "array":
        return G.Image(a, **(at if d["setat"] else {}), **kw)
    if how == "arraykw":
        return G.Image(array=a, **(at if d["setat"] else {}), **kw)
    if how == "arraybounds":
        return G.Image(a, bounds=b, **kw)
    if how == "list":
        if k in ("CF", "CD"):
            raise Skip("list")
        if "dtype" not in kw:
            kw["dtype"] = DT[k]
        return G.Image(a.tolist(), **(at if d["setat"] else {}), **kw)
    if how in ("image", "imagekw"):
        src = slots[d["seed"] % N]
        if "dtype" in kw and fault != "bad dtype":
            if isinstance(src, RG.Image):
                judge_cast(src.array, kw["dtype"])
                if src.array.dtype.kind == "f" and np.dtype(kw["dtype"]).kind in "iu" \
                        and src.bounds.isDefined() and not src.isconst:
                    src = RG.Image(np.around(src.array), bounds=src.bounds, wcs=src.wcs)
        r = G.Image(src, **kw) if how == "image" else G.Image(image=src, **kw)
        if G is RG:
            if src.isconst or not src.bounds.isDefined():
                raise Skip("constructor of a constant or undefined image")
            r = RG.Image(r.array.copy(), bounds=r.bounds, wcs=r.wcs)
        return r
    if how == "alias":
        kw.pop("dtype", None)
        if "init" in d and d["init"] < 0 and k in ("US", "UI"):
            raise Skip("negative fill of unsigned")
        return getattr(G, ALIAS[k])(ncol, nrow, **(at if d["setat"] else {}), **kw)
    if how == "empty":
        return G.Image(**kw)
    if how == "_image":
        x = a.astype(DT[k])
        return G._Image(x if G is RG else jnp.asarray(x), bnds(G, d["at"], (ncol, nrow)), kw.get("wcs"))
    raise ValueError(how)


def cp(G, im):
    """GalSim returns views of shared pixels; the library documents copies."""
    return im.copy() if G is RG and not im.isconst else im


def step(d, G, X):
    """Run one operation; returns ("im", slot, image) / ("v", value) / None."""
    o, t = d["o"], d["t"]
    x, y = X[d["i"]], X[d["j"]]
    ref = G is RG
    und = ref and not x.bounds.isDefined()
    if o == "new":
        return "im", t, mk(d["new"], G, X)
    if o in ("bin", "rbin", "ibin"):
        b = mk_scalar(d["s"]) if "s" in d else y
        f = d["f"]
        if ref:
            bare = f[1:] if o == "ibin" else f
            bare = {"and": "and_", "or": "or_"}.get(bare, bare)
            bin_integer = bare in ("floordiv", "mod", "and_", "or_", "xor")
            ok = True
            if bin_integer and (not x.isinteger or ("s" not in d and not y.isinteger)):
                ok = False  # refused by the library's own check
            if "s" not in d and x.array.shape != y.array.shape:
                ok = False
            if x.isconst and o == "ibin":
                ok = False
            if ok:
                aa, bb = narr(x), narr(b)
                if o == "rbin":
                    aa, bb = bb, aa
                judge_binary(bare, aa, bb, x.array.dtype if o == "ibin" else None)
        if o == "bin":
            return "im", t, getattr(operator, f)(x, b)
        if o == "rbin":
            return "im", t, getattr(operator, f)(b, x)
        r = getattr(operator, f)(x, b)
        if r is not x:
            raise Violation("in-place operator returned a new object")
        return "im", d["i"], r
    if o in ("pow", "ipow"):
        if ref:
            with np.errstate(all="ignore"):
                r = np.asarray(x.array).astype(complex if x.iscomplex else float) ** d["p"]
            if x.isinteger:
                if isinstance(d["p"], float) and d["p"] < 0 or np.any(np.abs(r) > 2**15 - 1):
                    raise Skip("integer power")
                if isinstance(d["p"], float):
                    judge_cast(r, x.array.dtype)
            elif not np.all(np.isfinite(r)):
                raise Skip("infinite power")
        if o == "pow":
            return "im", t, x ** d["p"]
        X2 = x
        X2 **= d["p"]
        return "im", d["i"], X2
    if o == "neg":
        if ref and x.array.dtype.kind == "u":
            raise Skip("negative of unsigned")
        return "im", t, -x
    if o == "pos":
        # properties of the image
        b = x.bounds
        v = [int(x.nrow), int(x.ncol), bool(x.iscomplex), bool(x.isinteger), bool(x.isconst)]
        if b.isDefined():
            v += [int(x.xmin), int(x.xmax), int(x.ymin), int(x.ymax),
                  int(x.center.x), int(x.center.y), float(x.true_center.x), float(x.true_center.y),
                  int(x.origin.x), int(x.origin.y), float(x.outer_bounds.xmin), float(x.outer_bounds.ymax)]
        return "v", v
    if o in ("get", "set", "addv"):
        px, py = x.xmin + d["at"][0], x.ymin + d["at"][1]
        px, py = int(px), int(py)
        p = G.PositionI(px, py)
        h, v = d["how"], d["v"]
        if o == "get":
            if h == 0:
                return "v", np.asarray(x[px, py])
            if h == 1:
                return "v", np.asarray(x[p])
            if h == 2:
                return "v", np.asarray(x(px, py))
            if h == 3:
                return "v", np.asarray(x(x=px, y=py))
            return "v", np.asarray(x.getValue(px, py))
        if ref and x.isinteger:
            cur = 0
            if o == "addv":
                if not x.bounds.isDefined() or not x.bounds.includes(px, py):
                    cur = 0
                else:
                    cur = int(x.array[py - x.ymin, px - x.xmin])
                if v != int(v) and x.bounds.isDefined() and x.bounds.includes(px, py):
                    raise Skip("adding a fraction to an integer pixel")
            if v != int(v):
                raise Skip("fraction into an integer pixel")
            judge_cast(np.asarray(float(cur + v)), x.array.dtype)
        if o == "addv":
            v = int(v) if ref and x.isinteger or (not ref and x.isinteger) else v
            if h % 2:
                x.addValue(px, py, v)
            else:
                x.addValue(p, v)
        elif h == 0:
            x[px, py] = v
        elif h == 1:
            x[p] = v
        elif h == 2:
            x.setValue(x=px, y=py, value=v)
        elif h == 3:
            x.setValue(p, v)
        else:
            x.setValue(px, py, v)
        return "im", d["i"], x
    if o in ("sub", "setsub"):
        if ref or True:
            nr, nc = (int(x.nrow), int(x.ncol)) if x.bounds.isDefined() else (1, 1)
        a, w, c, h = d["b"]
        if d["fit"]:
            a, c = max(a, 0) % nc, max(c, 0) % nr
            w, h = min(w, nc - a), min(h, nr - c)
        b = G.BoundsI(int(x.xmin) + a, int(x.xmin) + a + w - 1, int(x.ymin) + c, int(x.ymin) + c + h - 1)
        if o == "sub":
            r = x[b] if d["how"] else x.subImage(b)
            return "im", t, r.copy() if ref else r
        arr = mk_array(d["seed"], (h + (1 if d["bad"] else 0), w), d["k"])
        if ref:
            judge_cast(arr, x.array.dtype)
        rhs = G.Image(arr)
        if d["how"]:
            x[b] = rhs
        else:
            x.setSubImage(b, rhs)
        return "im", d["i"], x
    if o == "fill":
        if ref and x.isinteger:
            if d["v"] != int(d["v"]):
                raise Skip("fraction into integer pixels")
            judge_cast(np.asarray(float(d["v"])), x.array.dtype)
        x.fill(d["v"])
        return "im", d["i"], x
    if o == "zero":
        if und:
            raise Skip("setZero of an undefined image")
        x.setZero()
        return "im", d["i"], x
    if o == "invert":
        if ref and x.isinteger and not x.isconst:
            raise Skip("inverse of an integer image")  # GalSim truncates, the library rounds
        x.invertSelf()
        return "im", d["i"], x
    if o == "repneg":
        if ref and x.array.dtype.kind == "c":
            raise Skip("ordering of complex numbers")
        if ref and x.isinteger and d["v"] != int(d["v"]):
            raise Skip("fraction into integer pixels")
        if ref and x.isconst and not np.any(x.array < 0):
            raise Skip("nothing to replace")
        x.replaceNegative(d["v"]) if d["v"] else x.replaceNegative()
        return "im", d["i"], x
    if o == "copyfrom":
        if ref and x.array.shape == y.array.shape and not x.isconst:
            judge_cast(y.array, x.array.dtype)
        x.copyFrom(y)
        return "im", d["i"], x
    if o in ("shift", "center", "origin"):
        if und:
            raise Skip("shift of an undefined image")
        m = {"shift": "shift", "center": "setCenter", "origin": "setOrigin"}[o]
        n = {"shift": ("dx", "dy"), "center": ("xcen", "ycen"), "origin": ("x0", "y0")}[o]
        a = d["at"]
        f = getattr(x, m)
        h = d["how"]
        if h == 0:
            f(a[0], a[1])
        elif h == 1:
            f(G.PositionI(*a))
        elif h == 2:
            f(**dict(zip(n, a)))
        else:
            f(tuple(a))
        return "im", d["i"], x
    if o == "resize":
        nr, nc = d["shape"]
        x.resize(bnds(G, d["at"], (nc, nr)), wcs=S.make_wcs(d["wcs"], G))
        return "im", d["i"], x
    if o == "copy":
        return "im", t, x.copy()
    if o == "copyopt":
        kw = {}
        if "scale" in d:
            kw["scale"] = d["scale"]
        if d.get("wcs") is not None:
            kw["wcs"] = S.make_wcs(d["wcs"], G)
        for n in ("origin", "center"):
            if n in d:
                kw[n] = G.PositionI(*d[n])
        if "dtype" in d:
            kw["dtype"] = DT[d["dtype"]]
            if ref:
                judge_cast(x.array, kw["dtype"])
        if d["const"]:
            kw["make_const"] = True
        if und:
            raise Skip("view of an undefined image")
        if ref:
            # where GalSim truncates, this library rounds to the nearest integer
            toint = np.dtype(kw.get("dtype", x.array.dtype)).kind in "iu"
            base = RG.Image(np.around(x.array) if toint else x.array.copy(), bounds=x.bounds, wcs=x.wcs)
            return "im", t, base.view(**kw)
        return "im", t, x.copy(**kw)
    if o in ("transpose", "flip_lr", "flip_ud", "rot_cw", "rot_ccw", "rot_180", "conjugate"):
        if und:
            raise Skip("flip of an undefined image")
        r = getattr(x, o)
        r = r if o == "conjugate" else r()
        if ref:
            r = r.copy()  # a view there, a new image here
        return "im", t, r
    if o in ("real", "imag"):
        if und:
            raise Skip("real part of an undefined image")
        return "im", t, cp(G, getattr(x, o))
    if o == "pixcen":
        if und:
            raise Skip("pixel centers of an undefined image")
        return "v", np.array([np.asarray(v) for v in x.get_pixel_centers()])
    if o == "setscale":
        x.scale = d["v"]
        return "im", d["i"], x
    if o == "setwcs":
        x.wcs = S.make_wcs(d["wcs"], G)
        return "im", d["i"], x
    if o == "setarray":
        arr = mk_array(d["seed"], (int(x.nrow), int(x.ncol)), d["k"])
        if und:
            raise Skip("array of an undefined image")
        if ref:
            judge_cast(arr, x.array.dtype)
        x.array = arr if ref else jnp.asarray(arr)
        return "im", d["i"], x
    if o == "eq":
        return "v", [bool(x == y), bool(x != y)]
    if o == "badkey":
        x["ab"] = 1
        return None
    raise ValueError(o)


def same_wcs(what, j, r, zero_shift=False):
    if (j is None) != (r is None):
        raise Violation("%s: wcs %r, reference %r" % (what, j, r))
    if r is None:
        return
    if type(j).__name__ != type(r).__name__ and not zero_shift:
        raise Violation("%s: wcs class %s, reference %s" % (what, type(j).__name__, type(r).__name__))
    for p in ((0.0, 0.0), (3.5, -2.0)):
        w = r.toWorld(RG.PositionD(*p))
        g = j.toWorld(JG.PositionD(*p))
        close(what + ": wcs.toWorld" + str(p), [float(g.x), float(g.y)], [w.x, w.y], rtol=1e-10, atol=1e-9)
    if r._isPixelScale and not zero_shift:
        close(what + ": wcs.scale", float(j.scale), r.scale, rtol=1e-12)


def same_image(what, j, r, dtype=None, zero_shift=False):
    if not isinstance(j, JG.Image):
        raise Violation("%s: got %s, reference an Image" % (what, type(j).__name__))
    d = bool(r.bounds.isDefined())
    if bool(j.bounds.isDefined()) != d:
        raise Violation("%s: bounds %s, reference %s" % (what, j.bounds, r.bounds))
    if d:
        g = tuple(int(v) for v in (j.xmin, j.xmax, j.ymin, j.ymax))
        w = (r.xmin, r.xmax, r.ymin, r.ymax)
        if g != w:
            raise Violation("%s: bounds %s, reference %s" % (what, g, w))
    a, b = np.asarray(j.array), np.asarray(r.array)
    want = np.dtype(dtype if dtype is not None else b.dtype)
    if np.dtype(j.dtype) != want or a.dtype != want:
        raise Violation("%s: dtype %s (array %s), reference %s" % (what, np.dtype(j.dtype), a.dtype, want))
    if d or a.size == 1:
        if a.shape != b.shape:
            raise Violation("%s: array shape %s, reference %s" % (what, a.shape, b.shape))
        rtol = {"f": 1e-13, "c": 1e-13}.get(want.kind, 0.0)
        if want in (np.float32, np.complex64):
            rtol = 2e-6
        if d:
            sc = np.abs(b[np.isfinite(b)]).max() if b.size and np.any(np.isfinite(b)) else 0.0
            close(what + ": pixels", a, b, rtol=rtol, atol=rtol * float(sc))
    if bool(j.isconst) != bool(r.isconst):
        raise Violation("%s: isconst %s, reference %s" % (what, j.isconst, r.isconst))
    same_wcs(what, j.wcs, r.wcs, zero_shift)


def start(G):
    return [
        G.Image(mk_array(1, (3, 4), "F"), scale=0.5),
        G.Image(mk_array(2, (3, 4), "I"), xmin=-1, ymin=2),
        G.Image(mk_array(3, (4, 4), "D"), wcs=G.JacobianWCS(0.5, 0.1, -0.1, 0.6), xmin=0, ymin=0),
    ]


def jax_dtype(d, XJ):
    """dtype of the bare JAX operation, where NumPy and JAX promote differently."""
    x, y = XJ[d["i"]], XJ[d["j"]]
    b = mk_scalar(d["s"]) if "s" in d else y.array
    a = x.array
    if d["o"] == "rbin":
        a, b = b, a
    r = getattr(operator, d["f"])(a, b)
    dt = r.dtype.type
    return np.int32 if dt in (np.int64,) else dt


def clone(x):
    return RG.Image(x.array.copy(), bounds=x.bounds, wcs=x.wcs, make_const=x.isconst) \
        if x.bounds.isDefined() else RG.Image(dtype=x.dtype, wcs=x.wcs)


def history(case):
    XJ, XR = start(JG), start(RG)
    live = 0
    for n, d in enumerate(case):
        what = "step %d %s" % (n, {k: v for k, v in d.items()})
        saved = [clone(x) for x in XR]
        try:
            with np.errstate(all="ignore"):
                r = step(d, RG, XR)
        except Skip as e:
            label("skip: %s" % e)
            XR = saved
            continue
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            XR = saved
            if isinstance(e, ValueError) and "read-only" in str(e):
                label("refused: read-only")
            try:
                j = step(d, JG, XJ)
            except Violation:
                raise
            except Exception:  # noqa: BLE001
                label("refused")
                for s in range(N):
                    same_image("%s refused; slot %d" % (what, s), XJ[s], XR[s])
                continue
            raise Violation("%s: accepted (%s), reference raises %r" % (what, j and j[0], e))
        j = step(d, JG, XJ)
        if r is None:
            continue
        if r[0] == "v":
            if isinstance(r[1], list):
                if [v for v in j[1]] != r[1]:
                    raise Violation("%s: got %s, reference %s" % (what, j[1], r[1]))
            else:
                close(what, j[1], r[1], rtol=1e-6 if r[1].dtype in (np.float32, np.complex64) else 1e-13)
            live += 1
            continue
        dt = None
        if d["o"] in ("bin", "rbin") and np.dtype(j[2].dtype) != np.dtype(r[2].array.dtype):
            dt = np.dtype(jax_dtype(d, XJ))
            label("jax promotion %s, numpy %s" % (dt, r[2].array.dtype))
            try:
                judge_cast(r[2].array, dt)
            except Skip:
                XR = saved
                continue
            ra = r[2].array.astype(dt)
            r = (r[0], r[1], RG.Image(ra, bounds=r[2].bounds, wcs=r[2].wcs))
        moves = d["o"] in ("shift", "center", "origin", "copyopt")
        same_image(what, j[2], r[2], dt, moves)
        if moves and r[2].wcs is not None and type(j[2].wcs).__name__ != type(r[2].wcs).__name__:
            # a shift by (0, 0) may turn a local WCS into the same one with an
            # explicit origin (traced shifts cannot be tested for zero)
            label("zero shift")
            r[2].wcs = j[2].wcs.to_galsim()
        XJ[r[1]], XR[r[1]] = j[2], r[2]
        # one image object per slot (assignment makes no aliases between slots)
        if d["o"] in ("bin", "rbin", "ibin", "pow", "ipow", "invert", "new") and XR[r[1]].bounds.isDefined():
            # carry on from bit-identical pixels
            if XR[r[1]].array.dtype.kind in "fc":
                XJ[r[1]]._array = jnp.asarray(np.array(XR[r[1]].array))
        live += bool(r[2].bounds.isDefined())
    for s in range(N):
        same_image("slot %d at the end" % s, XJ[s], XR[s])
    return live >= 4


# ------------------------------------------------------------ algebra on pixels
@st.composite
def algcase(draw):
    k = draw(st.sampled_from(["D", "F", "S", "I"]))
    return [k, draw(shape), draw(seed), draw(seed), draw(corner), draw(corner), draw(sval), draw(st.integers(0, 30))]


def algebra(case):
    """Laws that need no second library."""
    k, shp, s1, s2, x0, y0, v, r = case
    a = JG.Image(mk_array(s1, shp, k), xmin=x0, ymin=y0)
    b = JG.Image(mk_array(s2, shp, k), xmin=x0, ymin=y0)
    A, B = np.asarray(a.array), np.asarray(b.array)

    def eq(what, p, q):
        if not (p == q) or (p != q):
            raise Violation("%s fails" % what)

    eq("a + b == b + a", a + b, b + a)
    eq("(a - b) + b == a", (a - b) + b, a)
    eq("a * b == b * a", a * b, b * a)
    eq("-(-a) == a", -(-a), a)
    eq("flip twice", a.flip_lr().flip_lr(), a)
    eq("flip_ud twice", a.flip_ud().flip_ud(), a)
    eq("transpose twice", a.transpose().transpose(), a)
    eq("rot_cw rot_ccw", a.rot_cw().rot_ccw(), a)
    eq("rot_180", a.rot_180(), a.flip_lr().flip_ud())
    eq("rot_cw twice", a.rot_cw().rot_cw(), a.rot_180())
    c = a.copy()
    c.shift(3, -2)
    close("shift keeps pixels", np.asarray(c.array), A)
    c.shift(-3, 2)
    eq("shift back", c, a)
    c = a.copy()
    x = int(a.xmin) + r % shp[1]
    y = int(a.ymin) + (r // 5) % shp[0]
    c[x, y] = v
    if float(c(x, y)) != v:
        raise Violation("read after write")
    W = A.copy()
    W[y - y0, x - x0] = v
    close("write touches one pixel", np.asarray(c.array), W)
    close("write leaves the source alone", np.asarray(a.array), A)
    sub = JG.BoundsI(x, int(a.xmax), y, int(a.ymax))
    c[sub] = b[sub]
    W[y - y0:, x - x0:] = B[y - y0:, x - x0:]
    close("sub-image write", np.asarray(c.array), W)
    eq("sub-image read", c[sub], b[sub])
    c.copyFrom(b)
    eq("copyFrom", c, b)
    c[c.bounds] = a
    eq("full sub-image", c, a)
    c += b
    c -= b
    eq("in place add and subtract", c, a)
    return np.any(A) and np.any(B) and A.size > 1


# -------------------------------------------------------------- adaptive moments
def momcase():
    return st.tuples(S.fl(1.0, 2.0, 3), S.small_shear(0.4), S.fl(-1, 1, 2), S.fl(-1, 1, 2), st.integers(-5, 5),
                     st.sampled_from(["F", "D", "I"]))


def moments(case):
    sig, g, dx, dy, at, k = case
    im = RG.Gaussian(sigma=sig, flux=5000).shear(g1=g[0], g2=g[1]).shift(dx, dy).drawImage(
        nx=24, ny=24, scale=1.0, method="no_pixel", dtype=float)
    im = RG.Image(np.round(im.array).astype(DT[k]), xmin=at, ymin=-at, scale=1.0)
    jm = JG.Image(np.array(im.array), xmin=at, ymin=-at, scale=1.0)
    r, j = im.FindAdaptiveMom(), jm.FindAdaptiveMom()
    for n in ("moments_amp", "moments_sigma", "moments_rho4"):
        close(n, getattr(j, n), getattr(r, n), rtol=1e-10)
    for n in ("g1", "g2"):
        close(n, getattr(j.observed_shape, n), getattr(r.observed_shape, n), rtol=1e-9, atol=1e-12)
    close("centroid", [j.moments_centroid.x, j.moments_centroid.y],
          [r.moments_centroid.x, r.moments_centroid.y], rtol=1e-10)
    return True


TESTS = [
    Test("history", lambda: st.lists(op(), min_size=8, max_size=25), history, 1000, 20000,
         "at least four operations whose result is a defined image or value"),
    Test("algebra", algcase, algebra, 160, 3000, "two images with more than one pixel, not all zero", shards=4),
    Test("moments", momcase, moments, 24, 400, shards=1),
]
