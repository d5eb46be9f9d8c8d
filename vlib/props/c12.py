"""C12: FITS output is read back, and by GalSim, as the same image."""

import os
import shutil
import tempfile
import warnings

import astropy.io.fits as pyfits
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, f, label, require
from vlib.props.c11 import headers, make_fits
from vlib.specs import DTYPES, JG, RG

warnings.filterwarnings("ignore")

REAL = ["D", "F", "S", "I", "US", "UI"]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif_c12_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ pieces
@st.composite
def wcsdesc(draw):
    k = draw(st.sampled_from(["none", "planar", "planar", "planar", "tan", "fits", "fits"]))
    if k == "none":
        return None
    if k == "planar":
        return draw(S.wcses())
    if k == "tan":
        return draw(S.wcses(kinds=("Tan",)))
    return {"header": draw(headers())}


def mkwcs(d, G):
    if d is not None and "header" in d:
        return make_fits(G, d["header"], None, True)
    return S.make_wcs(d, G)


SHAPES = [(1, 1), (1, 4), (3, 2), (4, 5), (8, 8), (12, 7)]


@st.composite
def imgs(draw, dts=REAL, shape=None, wcs=True):
    dt = draw(st.sampled_from(dts))
    ny, nx = shape or draw(st.sampled_from(SHAPES))
    org = draw(st.one_of(st.just([1, 1]), st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(list),
                         st.sampled_from([[0, 0], [1, 0], [0, 1], [1, -3], [100000, 1]])))
    how = draw(st.sampled_from(["small", "small", "wide", "extreme"]))
    w = draw(wcsdesc()) if wcs else None
    if w is not None and ("header" in w or w["wcs"] == "Tan"):
        org = [min(org[0], 400), org[1]]  # keep within reach of the projection
    return dict(dt=dt, shape=[ny, nx], org=org, how=how, seed=draw(st.integers(0, 10**6)),
                wcs=w, const=draw(st.booleans()))


def pixels(d):
    r = np.random.RandomState(d["seed"])
    t = DTYPES[d["dt"]]
    n = tuple(d["shape"])
    if np.dtype(t).kind in "iu":
        i = np.iinfo(t)
        if d["how"] == "small":
            a = r.randint(0, 100, n)
        else:
            a = r.randint(i.min, i.max, n, dtype=np.int64)
        a = a.astype(t)
        if d["how"] == "extreme":
            a.ravel()[0], a.ravel()[-1] = i.min, i.max
        return a
    a = r.normal(size=n)
    if d["how"] == "wide":
        a = a * 10.0 ** r.uniform(-30, 30, n)
    a = a.astype(t)
    if d["how"] == "extreme":
        sp = [np.nan, np.inf, -np.inf, 0.0, -0.0, np.finfo(t).max, np.finfo(t).tiny]
        for k in range(a.size):
            if r.rand() < 0.5:
                a.ravel()[k] = sp[r.randint(len(sp))]
    return a


def build(d, G):
    """An image with an explicit coordinate system given in image coordinates."""
    a = pixels(d)
    im = G.Image(np.array(a), xmin=d["org"][0], ymin=d["org"][1], wcs=mkwcs(d["wcs"], G),
                 make_const=d["const"])
    return im


def world(w, x, y, G):
    p = w.toWorld(G.PositionD(x, y))
    if hasattr(p, "ra"):
        return np.array([f(v) for v in p.get_xyz()])
    return np.array([f(p.x), f(p.y)])


def pixscale(w, G, x, y):
    return float(np.sqrt(abs(f(w.local(image_pos=G.PositionD(x, y)).pixelArea()))))


def same_wcs(what, wj, wr, org, names=True):
    """Two coordinate systems (either library) agree on the map around org."""
    if wj is None or wr is None:
        require((wj is None) == (wr is None), "%s: wcs %r, reference %r", what, wj, wr)
        return
    if names and type(wj).__name__ != type(wr).__name__:
        raise Violation("%s: wcs is a %s, reference %s" % (what, type(wj).__name__, type(wr).__name__))
    Gj = JG if type(wj).__module__.startswith("jax_galsim") else RG
    Gr = JG if type(wr).__module__.startswith("jax_galsim") else RG
    require(bool(wj._isCelestial) == bool(wr._isCelestial), "%s: celestial flags differ", what)
    for dx, dy in ((0, 0), (13.25, -7.5), (-40, 60)):
        x, y = org[0] + dx, org[1] + dy
        b = world(wr, x, y, Gr)
        a = world(wj, x, y, Gj)
        # one part in 1e-9 of a pixel, plus rounding of the coordinates themselves
        if wr._isCelestial:
            # asin(sin(dec)) loses digits towards the poles
            tol = 1e-13 + 2e-15 / max(np.hypot(b[0], b[1]), 1e-7)
        else:
            tol = 1e-10 * (1 + np.max(np.abs(b)) + 100)
        if not np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))):
            raise Violation("%s: image (%r,%r) is at %s, reference %s" % (what, x, y, a, b))


def same_pixels(what, a, b, exact=True):
    a, b = np.asarray(a), np.asarray(b)
    equal(what + ": shape", a.shape, b.shape)
    equal(what + ": dtype", a.dtype.newbyteorder("="), b.dtype.newbyteorder("="))
    if exact:
        same = (a == b) | ((a != a) & (b != b))
        if a.dtype.kind == "f":
            # bits, except that the payload of a NaN is free
            same &= (np.signbit(a) == np.signbit(b)) | (a != a)
        if not np.all(same):
            i = tuple(np.argwhere(~same)[0])
            raise Violation("%s: pixel %s is %r, expected %r" % (what, i, a[i], b[i]))


def same_image(what, im, ref, org=None, exact=True, names=True):
    same_pixels(what, im.array, ref.array, exact)
    b, c = im.bounds, ref.bounds
    equal(what + ": bounds", [int(v) for v in (b.xmin, b.xmax, b.ymin, b.ymax)],
          [int(v) for v in (c.xmin, c.xmax, c.ymin, c.ymax)])
    same_wcs(what, im.wcs, ref.wcs, org or [b.xmin, b.ymin], names)


class Outcome:
    """What a call gave: a value, or the error it raised."""

    def __init__(self, fn, *a, **k):
        self.value = self.error = None
        try:
            self.value = fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            self.error = e


def agree(what, j, r):
    """Both calls worked (True) or both failed (False)."""
    if r.error is None and j.error is not None:
        raise Violation("%s: raised %r, GalSim accepts it" % (what, j.error))
    if r.error is not None and j.error is None:
        raise Violation("%s: accepted, GalSim raises %r" % (what, r.error))
    return r.error is None


LOSSY = ("rice", "gzip_tile", "hcompress", "plio")
COMP = ["none", None, "auto", "gzip", "bzip2", "rice", "gzip_tile", "hcompress", "plio"]
EXT = [".fits", ".fits.gz", ".fits.bz2", ".fits.fz", ".fit"]


def lossless(comp, name, dt):
    c = comp
    if c == "auto":
        c = {".fits.fz": "rice"}.get(name[name.index("."):], None)
    if c not in LOSSY:
        return True
    if c in ("hcompress", "plio"):
        return False
    return dt not in ("D", "F")


HKEYS = ["OBSERVER", "EXPTIME", "NOTE", "FLAG", "LONGKEYWORD", "X_Y", "GAIN", "ISTR"]


@st.composite
def extra(draw):
    n = draw(st.integers(0, 4))
    out = []
    for _ in range(n):
        k = draw(st.sampled_from(HKEYS))
        v = draw(st.one_of(st.integers(-10**9, 10**9), S.fl(-1e6, 1e6), st.booleans(),
                           st.text(alphabet="abc 'XYZ=/_-", max_size=30)))
        c = draw(st.sampled_from([None, None, "a comment"]))
        out.append([k, v, c])
    return out


def put_header(G, im, items):
    if items is None:
        return
    h = G.FitsHeader(header={})
    for k, v, c in items:
        h[k] = v if c is None else (v, c)
    im.header = h


# ------------------------------------------------------------------ one image
@st.composite
def singlecase(draw):
    d = draw(imgs())
    comp = draw(st.sampled_from(COMP))
    ext = draw(st.sampled_from(EXT if comp == "auto" else EXT[:1]))
    return [d, comp, ext, draw(st.sampled_from(["func", "method", "hdus", "dir", "cube1"])),
            draw(st.sampled_from([None, None, 1])) and draw(extra()), draw(st.booleans())]


def read_kw(comp, ext):
    return {} if comp == "auto" else {"compression": comp}


def snapshot(im):
    return (type(im), type(im.array), np.array(im.array), im.bounds, im.wcs, im.isconst, im.dtype,
            hasattr(im, "header"))


def untouched(what, im, snap):
    t, ta, a, b, w, c, dt, hh = snap
    require(type(im) is t, "%s: the image's class became %s", what, type(im))
    require(type(im.array) is ta, "%s: the image's array became a %s", what, type(im.array))
    same_pixels(what + " (image after writing)", im.array, a)
    require(im.bounds == b and (im.wcs is w or im.wcs == w) and im.isconst == c and im.dtype == dt
            and hasattr(im, "header") == hh,
            "%s: writing changed the image", what)


def write_one(G, im, path, how, comp):
    d, n = os.path.split(path)
    kw = {"compression": comp}
    if how == "method":
        im.write(path, **kw)
    elif how == "dir":
        G.fits.write(im, file_name=n, dir=d, **kw)
    elif how == "cube1":
        G.fits.writeCube([im], path, **kw)
    elif how == "hdus":
        hl = pyfits.HDUList()
        c = comp
        if c == "auto":
            c = {".fits.fz": "rice"}.get(n[n.index("."):], None)
        G.fits.write(im, hdu_list=hl, compression=c)
        G.fits.writeFile(path, hl, compression=comp if comp in ("gzip", "bzip2", "auto") else None)
    else:
        G.fits.write(im, path, **kw)


def read_one(G, path, how, comp, ext, hdr):
    kw = read_kw(comp, ext)
    if how == "cube1":
        return G.fits.readCube(path, **kw)[0]
    if how == "dir":
        d, n = os.path.split(path)
        return G.fits.read(file_name=n, dir=d, read_header=hdr, **kw)
    return G.fits.read(path, read_header=hdr, **kw)


def single(case):
    d, comp, ext, how, items, twice = case
    hdr = items is not None
    with Scratch() as tmp:
        ij, ir = build(d, JG), build(d, RG)
        put_header(JG, ij, items)
        put_header(RG, ir, items)
        pj, pr = os.path.join(tmp, "j" + ext), os.path.join(tmp, "r" + ext)
        if twice:
            for p, im in ((pj, ij), (pr, ir)):
                (JG if im is ij else RG).fits.write(im * 0 if not hdr else im, p, compression=comp if comp in (None, "gzip") else None)
        snap = snapshot(ij)
        oj = Outcome(write_one, JG, ij, pj, how, comp)
        orr = Outcome(write_one, RG, ir, pr, how, comp)
        untouched("write", ij, snap)
        if not agree("write(%s, %s)" % (how, comp), oj, orr):
            label("refused")
            return False
        back = {}
        for w, p in (("j", pj), ("r", pr)):
            for n, G in (("j", JG), ("r", RG)):
                back[w + n] = Outcome(read_one, G, p, how, comp, ext, hdr)
        agree("GalSim reading the file", back["jr"], back["rr"])
        agree("reading GalSim's file", back["rj"], back["rr"])
        if not agree("reading the file", back["jj"], back["rr"]):
            label("unreadable")
            return False
        rr = back["rr"].value
        org = d["org"]
        for k in ("jj", "jr", "rj"):
            what = {"jj": "own file read back", "jr": "own file read by GalSim", "rj": "GalSim's file"}[k]
            same_image(what, back[k].value, rr, org)
            if hdr and how != "cube1":
                for key, v, _ in items:
                    equal(what + ": header " + key, back[k].value.header[key], rr.header[key])
        bj = back["jj"].value
        require(isinstance(bj, JG.Image), "read() returned %r", type(bj))
        if lossless(comp, "x" + ext, d["dt"]):
            same_pixels("own file read back, against what was written", bj.array, pixels(d))
            equal("own file read back: dtype", np.dtype(bj.dtype), np.dtype(DTYPES[d["dt"]]))
        if d["wcs"] is not None:
            equal("origin", [int(bj.xmin), int(bj.ymin)], org)
            # what the file holds is the coordinate system that was written
            wr = mkwcs(d["wcs"], RG)
            try:
                same_wcs("", rr.wcs, wr, org, False)
            except Violation:
                label("galsim-lossy-wcs")
            else:
                same_wcs("own file read back, against what was written", bj.wcs, mkwcs(d["wcs"], JG), org, False)
        label(how, str(comp), d["dt"], "wcs:%s" % (d["wcs"] and d["wcs"].get("wcs", "fits")))
    return True


# ------------------------------------------------------------------ several images
@st.composite
def multicase(draw):
    cube = draw(st.booleans())
    n = draw(st.integers(1, 4))
    shape = draw(st.sampled_from(SHAPES)) if cube else None
    dt = [draw(st.sampled_from(REAL))] if cube else REAL
    ims = [draw(imgs(dt, shape)) for _ in range(n)]
    if cube:
        for d in ims[1:]:
            d["dt"] = ims[0]["dt"]
    return [cube, ims, draw(st.sampled_from(["none", "gzip", "rice", "gzip_tile"])),
            draw(st.sampled_from(["file", "hdus", "raw"])), draw(st.booleans()),
            draw(st.integers(0, n))]


def multi(case):
    cube, ds, comp, how, append, which = case
    with Scratch() as tmp:
        res = {}
        for n, G in (("j", JG), ("r", RG)):
            ims = [build(d, G) for d in ds]
            snaps = [snapshot(i) for i in ims] if n == "j" else None
            p = os.path.join(tmp, n + ".fits")
            arg = ims
            if how == "raw" and cube:
                if append and n == "j":
                    # a plain array is documented to be accepted as well
                    arg = np.array([np.asarray(i.array) for i in ims])
                elif append:
                    arg = np.array([i.array for i in ims])
                else:
                    arg = [np.asarray(i.array) for i in ims] if n == "r" else [i.array for i in ims]
            fn = G.fits.writeCube if cube else G.fits.writeMulti
            if how == "hdus":
                hl = pyfits.HDUList()
                if append:
                    G.fits.write(build(dict(ds[0], const=False), G), hdu_list=hl)

                def go(fn=fn, arg=arg, hl=hl, p=p, G=G):
                    fn(arg, hdu_list=hl, compression=comp if comp not in ("gzip",) else "none")
                    G.fits.writeFile(p, hl, compression="gzip" if comp == "gzip" else "none")
            else:
                def go(fn=fn, arg=arg, p=p):
                    fn(arg, p, compression=comp)
            res[n] = (p, Outcome(go))
            if snaps:
                for i, s in zip(ims, snaps):
                    untouched("writeCube" if cube else "writeMulti", i, s)
        if not agree("write", res["j"][1], res["r"][1]):
            label("refused")
            return False
        back = {}
        for w in "jr":
            for n, G in (("j", JG), ("r", RG)):
                def rd(G=G, p=res[w][0]):
                    if cube:
                        hdu = 1 if (how == "hdus" and append and comp not in ("rice", "gzip_tile")) else None
                        return G.fits.readCube(p, compression=comp, hdu=hdu)
                    return G.fits.readMulti(p, compression=comp)
                back[w + n] = Outcome(rd)
        for k in ("jr", "rj", "jj"):
            ok = agree("reading back (%s)" % k, back[k], back["rr"])
        if not ok:
            label("unreadable")
            return False
        rr = back["rr"].value
        for k in ("jj", "jr", "rj"):
            v = back[k].value
            equal("number of images (%s)" % k, len(v), len(rr))
            for i, (a, b) in enumerate(zip(v, rr)):
                same_image("image %d (%s)" % (i, k), a, b)
        v = back["jj"].value
        if comp in ("none", "gzip") or ds[0]["dt"] not in "DF":
            skip = len(v) - len(ds)
            for i, d in enumerate(ds):
                if cube or d["dt"] not in "DF" or comp in ("none", "gzip"):
                    same_pixels("image %d as written" % i, v[i + skip].array, pixels(d))
        # a single HDU of the file
        if not cube:
            a = Outcome(JG.fits.read, res["j"][0], hdu=which, compression=comp)
            b = Outcome(RG.fits.read, res["j"][0], hdu=which, compression=comp)
            if agree("read(hdu=%d)" % which, a, b):
                same_image("read(hdu=%d)" % which, a.value, b.value)
            hl, fin = JG.fits.readFile(res["j"][0], compression=comp)[1:] if False else (None, None)
            hdus = pyfits.open(res["j"][0]) if comp != "gzip" else None
            if hdus is not None:
                try:
                    vv = Outcome(JG.fits.readMulti, hdu_list=hdus, compression=comp)
                    if vv.error is None:
                        for i, (x, y) in enumerate(zip(vv.value, rr)):
                            same_image("readMulti(hdu_list) %d" % i, x, y)
                    h = min(which, len(hdus) - 1)
                    a, b = Outcome(JG.fits.read, hdu_list=hdus[h]), Outcome(RG.fits.read, hdu_list=hdus[h])
                    if agree("read(an HDU)", a, b):
                        same_image("read(an HDU)", a.value, b.value)
                finally:
                    hdus.close()
        label("cube" if cube else "multi", how, comp)
    return True


# ------------------------------------------------------------------ files from elsewhere
FOREIGN = ["u1", "i2", "u2", "i4", "u4", "i8", "f4", "f8"]


@st.composite
def foreigncase(draw):
    kind = draw(st.sampled_from(["none", "cdelt", "cd", "linear", "sky", "sky", "unknown", "gs"]))
    h = {}
    if kind == "cdelt":
        s = draw(S.fl(0.1, 3, 4))
        h = {"CDELT1": s, "CDELT2": draw(st.sampled_from([s, 0.7])), "CRPIX1": draw(S.fl(-20, 20, 2)),
             "CRPIX2": 0.0, "CRVAL1": 0.0, "CRVAL2": draw(st.sampled_from([0.0, 12.5]))}
        for k in ("CRPIX1", "CRPIX2", "CRVAL1", "CRVAL2"):
            if draw(st.booleans()):
                del h[k]
    elif kind in ("cd", "linear"):
        j = draw(S.jacobians(0.2, 2.0, 0.5))
        h = {"CD1_1": j[0], "CD1_2": j[1], "CD2_1": j[2], "CD2_2": j[3], "CTYPE1": "LINEAR",
             "CTYPE2": "LINEAR", "CRPIX1": draw(S.fl(-20, 20, 2)), "CRPIX2": 3.0,
             "CRVAL1": draw(S.fl(-5, 5, 2)), "CRVAL2": 1.0}
        if kind == "linear":
            for k in list(h):
                if k != "CTYPE1" and draw(st.integers(0, 3)) == 0:
                    del h[k]
            if draw(st.booleans()):
                h.update(PC1_1=0.5, PC1_2=0.1, PC2_1=-0.2, PC2_2=0.7, CDELT1=1.5, CDELT2=1.2)
                for k in ("CD1_1", "CD1_2", "CD2_1", "CD2_2"):
                    h.pop(k, None)
    elif kind == "sky":
        h = draw(headers())
    elif kind == "gs":
        h = {"GS_XMIN": draw(st.integers(-9, 9)), "GS_YMIN": draw(st.integers(-9, 9))}
        k = draw(st.sampled_from(["scale", "aff", "none", "sh"]))
        if k == "scale":
            h.update(GS_WCS="PixelScale", GS_SCALE=draw(S.fl(0.1, 2, 3)))
        elif k == "sh":
            h.update(GS_WCS="ShearWCS", GS_SCALE=0.4, GS_G1=0.1, GS_G2=-0.2)
        elif k == "aff":
            h.update(CTYPE1="LINEAR", CTYPE2="LINEAR", CD1_1=0.4, CD1_2=0.1, CD2_1=0.0, CD2_2=0.3,
                     CRPIX1=2.0, CRPIX2=1.0)
    return [draw(st.sampled_from(FOREIGN)), list(draw(st.sampled_from(SHAPES))), kind, h,
            draw(st.sampled_from([None, None, [2.0, 0.5], [1.0, 100.0]])), draw(st.integers(0, 10**6)),
            draw(st.sampled_from(["image", "image", "header", "dict", "ext"]))]


def foreign(case):
    dt, shape, kind, h, scl, seed, mode = case
    if kind == "unknown":
        h = {"CTYPE1": "RA---XYZ", "CTYPE2": "DEC--XYZ", "CD1_1": 0.3, "CD1_2": 0.0, "CD2_1": 0.01, "CD2_2": 0.25,
             "CRPIX1": 4.0, "CRPIX2": 1.0}
    r = np.random.RandomState(seed)
    a = (r.randint(0, 200, shape) if dt[0] in "iu" else r.normal(size=shape)).astype(dt)
    if mode == "dict":
        j = Outcome(JG.wcs.readFromFitsHeader, dict(h))
        w = Outcome(RG.wcs.readFromFitsHeader, dict(h))
        if not agree("readFromFitsHeader", j, w):
            return False
        equal("origin", [int(j.value[1].x), int(j.value[1].y)], [w.value[1].x, w.value[1].y])
        same_wcs("readFromFitsHeader", j.value[0], w.value[0], [1, 1])
        j, w = Outcome(JG.FitsWCS, header=dict(h)), Outcome(RG.FitsWCS, header=dict(h))
        if not agree("FitsWCS(header)", j, w):
            return False
        same_wcs("FitsWCS(header)", j.value, w.value, [1, 1])
        label("dict", kind)
        return True
    with Scratch() as tmp:
        p = os.path.join(tmp, "f.fits")
        hd = pyfits.Header()
        for k, v in h.items():
            hd[k] = v
        hdu = (pyfits.ImageHDU if mode == "ext" else pyfits.PrimaryHDU)(a, hd)
        if scl is not None and dt in ("i2", "i4"):
            hdu.scale(dt == "i2" and "int16" or "int32", bscale=scl[0], bzero=scl[1])
        hl = [pyfits.PrimaryHDU(), hdu] if mode == "ext" else [hdu]
        pyfits.HDUList(hl).writeto(p, checksum=False)
        n = 1 if mode == "ext" else None
        if mode == "header":
            j, w = Outcome(JG.FitsWCS, p), Outcome(RG.FitsWCS, p)
            if agree("FitsWCS(file)", j, w):
                same_wcs("FitsWCS(file)", j.value, w.value, [1, 1])
        j = Outcome(JG.fits.read, p, hdu=n, read_header=True)
        w = Outcome(RG.fits.read, p, hdu=n, read_header=True)
        if not agree("read", j, w):
            return False
        same_image("read", j.value, w.value)
        require(j.value.dtype in JG.Image.valid_dtypes, "read() gave an image of type %s", j.value.dtype)
        for k in h:
            equal("header " + k, j.value.header.get(k), w.value.header.get(k))
        j2, w2 = Outcome(JG.fits.readMulti, p), Outcome(RG.fits.readMulti, p)
        if agree("readMulti", j2, w2):
            for x, y in zip(j2.value, w2.value):
                same_image("readMulti", x, y)
        label(mode, kind, dt)
    return True


# ------------------------------------------------------------------ headers of coordinate systems
@st.composite
def hdrcase(draw):
    return [draw(wcsdesc().filter(lambda d: d is not None)),
            draw(st.one_of(st.just([1, 1]), st.tuples(st.integers(-50, 50), st.integers(-50, 50)).map(list))),
            draw(st.tuples(st.integers(1, 100), st.integers(1, 100)).map(list)),
            draw(st.sampled_from(["FitsHeader", "pyfits", "dict"])),
            draw(st.sampled_from([None, None, [3, -2], [0.5, 7.25]]))]


def key_items(h):
    return {k: h[k] for k in h.keys() if k not in ("SIMPLE", "BITPIX", "NAXIS", "EXTEND", "END", "")}


def wcsheader(case):
    d, org, n, kind, shift = case
    hs = {}
    for k, G in (("j", JG), ("r", RG)):
        w = mkwcs(d, G)
        if shift is not None:
            w = w.shiftOrigin((G.PositionI if isinstance(shift[0], int) else G.PositionD)(*shift))
        b = G.BoundsI(org[0], org[0] + n[0] - 1, org[1], org[1] + n[1] - 1)
        h = {"FitsHeader": lambda: G.FitsHeader(header={}), "pyfits": pyfits.Header, "dict": dict}[kind]()
        o = Outcome(w.writeToFitsHeader, h, b)
        hs[k] = (h, o, w)
    if not agree("writeToFitsHeader", hs["j"][1], hs["r"][1]):
        return False
    hj, hr = key_items(hs["j"][0]), key_items(hs["r"][0])
    get = lambda v: v[0] if isinstance(v, tuple) else v  # noqa: E731
    ours = set(hj) ^ set(hr)
    for k in sorted(ours):
        # a distortion coefficient that is exactly zero may be left out
        v = get(hj[k] if k in hj else hr[k])
        require(isinstance(v, (int, float)) and abs(v) < 1e-18, "key %s=%r is only in %s header", k, v,
                "the" if k in hj else "GalSim's")
    for k in set(hj) & set(hr):
        a, b = get(hj[k]), get(hr[k])
        if isinstance(b, (int, float)) and not isinstance(b, bool):
            close("header key " + k, a, b, rtol=1e-11, atol=1e-11 if k[:2] in ("CR", "GS") else 1e-16)
        else:
            equal("header key " + k, a, b)
    j, r = Outcome(JG.wcs.readFromFitsHeader, hs["j"][0]), Outcome(RG.wcs.readFromFitsHeader, hs["r"][0])
    x = Outcome(RG.wcs.readFromFitsHeader, hs["j"][0])
    agree("GalSim reading the header", x, r)
    if not agree("reading the header back", j, r):
        return False
    for v in (j, x, r):
        equal("origin", [int(v.value[1].x), int(v.value[1].y)], org)
    same_wcs("header read back", j.value[0], r.value[0], org)
    same_wcs("header read by GalSim", x.value[0], r.value[0], org)
    try:
        same_wcs("", r.value[0], hs["r"][2], org, False)
    except Violation:
        label("galsim-lossy-wcs")
        return True
    same_wcs("header read back, against what was written", j.value[0], hs["j"][2], org, False)
    label(kind, d.get("wcs", "fits"))
    return True


TESTS = [
    Test("single", singlecase, single, 320, 6000,
         "the image was written and read by both libraries and compared", cost=2),
    Test("multi", multicase, multi, 160, 3000,
         "all images were written and read by both libraries and compared", cost=3),
    Test("foreign", foreigncase, foreign, 240, 4000, "the file was read by both libraries and compared", cost=1.5),
    Test("wcsheader", hdrcase, wcsheader, 320, 6000, "the header was written, compared and read back"),
]
