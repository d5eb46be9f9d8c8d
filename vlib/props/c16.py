"""C16: photon arrays keep photons together and ignore masked ones."""

import os
import shutil
import tempfile
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, close, equal, f, label, raises, require
from vlib.specs import JG, RG

warnings.filterwarnings("ignore")

COLS = ["x", "y", "flux", "dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time"]
PAIRS = {"dxdz": "Angles", "dydz": "Angles", "wavelength": "Wavelengths", "pupil_u": "Pupil", "pupil_v": "Pupil",
         "time": "Times"}
GROUPS = {"Angles": ["dxdz", "dydz"], "Wavelengths": ["wavelength"], "Pupil": ["pupil_u", "pupil_v"], "Times": ["time"]}
SIZES = [1, 2, 5, 8]


def values(col, n, seed):
    r = np.random.RandomState(seed)
    if col in ("x", "y"):
        # away from pixel edges, where rounding decides
        return np.round(r.uniform(-6, 6, n) * 8) / 8 + 0.0625
    if col == "flux":
        return np.round(r.uniform(-2, 5, n), 3)
    if col == "wavelength":
        return r.uniform(300, 900, n)
    return r.uniform(-1, 1, n)


@st.composite
def newarr(draw):
    n = draw(st.sampled_from(SIZES))
    cols = draw(st.lists(st.sampled_from(COLS[3:]), max_size=3, unique=True))
    return dict(n=n, cols=cols, seed=draw(st.integers(0, 10**6)), how=draw(st.sampled_from(["init", "from", "fromjax", "set"])))


def build(d, G):
    n = d["n"]
    v = {c: values(c, n, d["seed"] + i) for i, c in enumerate(COLS) if c in ("x", "y", "flux") or c in d["cols"]}
    if d["how"] in ("from", "fromjax"):
        # the reference wants both members of a pair
        for a, b in (("dxdz", "dydz"), ("pupil_u", "pupil_v")):
            if (a in v) != (b in v):
                v.setdefault(a, np.zeros(n))
                v.setdefault(b, np.zeros(n))
        if d["how"] == "fromjax" and G is JG:
            v = {c: jnp.array(a) for c, a in v.items()}
        return G.PhotonArray.fromArrays(**v)
    if d["how"] == "init":
        return G.PhotonArray(n, **v)
    p = G.PhotonArray(n)
    for c in COLS:
        if c in v:
            setattr(p, c, v[c])
    return p


def idx(draw, n):
    k = draw(st.sampled_from(["all", "slice", "step", "list", "mask", "int", "neg"]))
    if k == "all":
        return ["s", None, None, None]
    if k == "slice":
        a = draw(st.integers(0, n - 1))
        return ["s", a, draw(st.integers(a + 1, n)), None]
    if k == "step":
        return ["s", draw(st.integers(0, n - 1)), None, draw(st.sampled_from([1, 2, -1]))]
    if k == "list":
        return ["l", draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))]
    if k == "mask":
        m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(m):
            m[0] = True
        return ["m", m]
    return ["i", draw(st.integers(0, n - 1)) - (n if k == "neg" else 0)]


def mkidx(d):
    if d[0] == "s":
        return slice(*d[1:])
    if d[0] == "m":
        return np.array(d[1], dtype=bool)
    return d[1] if d[0] == "i" else np.array(d[1])


def count(d, n):
    return len(np.atleast_1d(np.arange(n)[mkidx(d)]))


@st.composite
def history(draw):
    arrs = [draw(newarr())]
    ns = [arrs[0]["n"]]
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from(["set", "set", "setscalar", "scaleFlux", "scaleXY", "setTotal", "copyFrom", "copyFrom", "copyFrom",
                                  "assignAt", "convolve", "convolve", "addTo", "addTo", "file", "repr", "jit", "new", "bad"]))
        i = draw(st.integers(0, len(ns) - 1))
        op = [k, i]
        if k == "new":
            a = draw(newarr())
            ops.append([k, a])
            ns.append(a["n"])
            continue
        if k == "set":
            op += [draw(st.sampled_from(COLS + ["flux"])), draw(st.integers(0, 10**6)), draw(st.sampled_from(["np", "jax", "list"]))]
        elif k == "setscalar":
            op += [draw(st.sampled_from(COLS)), draw(S.fl(-3, 3, 3))]
        elif k in ("scaleFlux", "scaleXY", "setTotal"):
            op += [draw(S.signed(0.2, 4.0))]
        elif k == "copyFrom":
            m = draw(newarr())
            s1, s2 = idx(draw, ns[i]), idx(draw, m["n"])
            if count(s1, ns[i]) != count(s2, m["n"]) and draw(st.integers(0, 4)):
                c = min(count(s1, ns[i]), m["n"], ns[i])
                s1, s2 = ["s", 0, c, None], ["s", m["n"] - c, None, None]
            op += [m, s1, s2, [draw(st.booleans()) or draw(st.booleans()) for _ in range(3)]]
        elif k == "assignAt":
            op += [draw(newarr()), draw(st.integers(0, 8))]
        elif k == "convolve":
            m = draw(newarr())
            if draw(st.integers(0, 9)):
                m["n"] = ns[i]
            op += [m]
        elif k == "addTo":
            op += [draw(st.sampled_from([[3, 3], [7, 4], [12, 12]])), draw(st.tuples(st.integers(-8, 3), st.integers(-8, 3)).map(list)),
                   draw(st.sampled_from("DF"))]
        elif k == "bad":
            op += [draw(st.sampled_from(["int", "size", "count", "none"]))]
        ops.append(op)
    return [arrs[0], ops]


def same(what, j, r, rtol=1e-12):
    equal(what + ": size", j.size(), r.size())
    equal(what + ": len", len(j), len(r))
    for c in ("x", "y", "flux"):
        close(what + ": " + c, np.asarray(getattr(j, c)), getattr(r, c), rtol=rtol, atol=1e-13)
    for g, cols in GROUPS.items():
        hj, hr = bool(getattr(j, "hasAllocated" + g)()), bool(getattr(r, "hasAllocated" + g)())
        # (GalSim allocates zeros, this library starts from NaN: documented)
        equal(what + ": hasAllocated" + g, hj, hr)
        if hr:
            for c in cols:
                a, b = np.asarray(getattr(j, c)), np.asarray(getattr(r, c))
                un = np.isnan(a) & (b == 0)
                close(what + ": " + c, np.where(un, 0.0, a), b, rtol=rtol, atol=1e-13)
    close(what + ": getTotalFlux", f(j.getTotalFlux()), r.getTotalFlux(), rtol=1e-11, atol=1e-12)


def both(what, fj, fr):
    """Run on both; True if both worked, False if both refused."""
    ej, er = raises(fj), raises(fr)
    if er is None and ej is not None:
        raise Violation("%s: raised %r, GalSim accepts it" % (what, ej))
    if er is not None and ej is None:
        raise Violation("%s: accepted, GalSim raises %r" % (what, er))
    return er is None


@jax.jit
def ident(p):
    return p


def snap(p):
    return {k: np.array(v) for k, v in p.__dict__.items() if hasattr(v, "shape")}


def unchanged(what, p, s):
    for k, v in s.items():
        a = np.asarray(getattr(p, k))
        require(a.shape == v.shape and np.array_equal(a, v, equal_nan=a.dtype.kind == "f"), "%s: changed the field %s", what, k)


def file_trip(p, G, other=None):
    d = tempfile.mkdtemp(prefix="verif_c16_")
    try:
        path = os.path.join(d, "p.fits")
        p.write(path)
        return G.PhotonArray.read(path), (other.PhotonArray.read(path) if other else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case):
    first, ops = case
    J, R = [build(first, JG)], [build(first, RG)]
    same("new", J[0], R[0])
    done = 0
    for op in ops:
        k = op[0]
        if k == "new":
            J.append(build(op[1], JG))
            R.append(build(op[1], RG))
            same("new", J[-1], R[-1])
            continue
        j, r = J[op[1]], R[op[1]]
        n = r.size()
        if k == "set":
            v = values(op[2], n, op[3])
            arg = {"np": v.copy, "jax": lambda: jnp.array(v), "list": v.tolist}[op[4]]()
            setattr(j, op[2], arg)
            setattr(r, op[2], v)
            equal("the array given", np.asarray(arg), v)
        elif k == "setscalar":
            setattr(j, op[2], op[3])
            setattr(r, op[2], op[3])
        elif k in ("scaleFlux", "scaleXY"):
            getattr(j, k)(op[2])
            getattr(r, k)(op[2])
        elif k == "setTotal":
            if abs(r.getTotalFlux()) < 0.05:
                continue
            j.setTotalFlux(op[2])
            r.setTotalFlux(op[2])
        elif k == "copyFrom":
            _, _, m, s1, s2, flags = op
            if (s1[0] == "i") != (s2[0] == "i"):
                # (JAX does not put an array of one element into a scalar)
                s1, s2 = (["l", [s[1]]] if s[0] == "i" else s for s in (s1, s2))
            a, b = build(m, JG), build(m, RG)
            sn = snap(a)
            kw = dict(do_xy=flags[0], do_flux=flags[1], do_other=flags[2])
            before = snap(j)
            ok = both("copyFrom(%s, %s)" % (s1, s2), lambda: j.copyFrom(a, mkidx(s1), mkidx(s2), **kw),
                      lambda: r.copyFrom(b, mkidx(s1), mkidx(s2), **kw))
            unchanged("copyFrom", a, sn)
            if not ok:
                unchanged("a refused copyFrom", j, before)
        elif k == "assignAt":
            a, b = build(op[2], JG), build(op[2], RG)
            sn = snap(j)
            if not both("assignAt(%d)" % op[3], lambda: j.assignAt(op[3], a), lambda: r.assignAt(op[3], b)):
                unchanged("a refused assignAt", j, sn)
        elif k == "convolve":
            a, b = build(op[2], JG), build(op[2], RG)
            sa, sj = snap(a), snap(j)
            if both("convolve", lambda: j.convolve(a, JG.BaseDeviate(3)), lambda: r.convolve(b, RG.BaseDeviate(3))):
                unchanged("convolve (right side)", a, sa)
            else:
                unchanged("a refused convolve", j, sj)
        elif k == "addTo":
            (ny, nx), (x0, y0), dt = op[2], op[3], op[4]
            t = {"D": np.float64, "F": np.float32}[dt]
            base = np.arange(ny * nx).reshape(ny, nx).astype(t)
            ij = JG.Image(np.array(base), xmin=x0, ymin=y0)
            ir = RG.Image(np.array(base), xmin=x0, ymin=y0)
            sj = snap(j)
            a, b = j.addTo(ij), r.addTo(ir)
            unchanged("addTo", j, sj)
            tol = 1e-11 if dt == "D" else 1e-5
            close("addTo: flux added", f(a), b, rtol=tol, atol=tol)
            close("addTo: image", np.asarray(ij.array), ir.array, rtol=tol, atol=tol)
            equal("addTo: dtype", np.asarray(ij.array).dtype, np.dtype(t))
            # and what GalSim says it means
            want = base.astype(float)
            tot = 0.0
            for x, y, fl in zip(r.x, r.y, r.flux):
                ix, iy = int(np.floor(x + 0.5)) - x0, int(np.floor(y + 0.5)) - y0
                if 0 <= ix < nx and 0 <= iy < ny:
                    want[iy, ix] += fl
                    tot += fl
            close("addTo: photons binned by hand", np.asarray(ij.array), want, rtol=tol, atol=tol)
            close("addTo: flux by hand", f(a), tot, rtol=1e-5 if dt == "F" else 1e-10, atol=tol)
        elif k == "file":
            a, b = file_trip(j, JG, RG)
            require(a == j or has_nan(j), "read back photons differ from the written ones: %r, %r", a, j)
            same("read back", a, r)
            same("GalSim reading the file", _Wrap(b), r)
            _, c = file_trip(r, RG, JG)
            same("reading the file of GalSim", c, r)
        elif k == "repr":
            a = eval(repr(j), {"galsim": JG, "array": np.array, "nan": np.nan})
            same("eval(repr)", a, r)
            require(a == j, "eval(repr) is not equal")
            require(not (a != j), "!= contradicts ==")
        elif k == "jit":
            j = J[op[1]] = ident(j)
            a = jax.tree_util.tree_map(lambda x: x, j)
            require(a == j, "flatten/unflatten is not equal")
        elif k == "bad":
            sj = snap(j)
            if op[2] == "int":
                both("copyFrom(target %d of %d)" % (n, n), lambda: j.copyFrom(j, n, 0), lambda: r.copyFrom(r, n, 0))
                both("copyFrom(source)", lambda: j.copyFrom(j, 0, -n - 1), lambda: r.copyFrom(r, 0, -n - 1))
            elif op[2] == "size":
                both("x of a wrong size", lambda: setattr(j, "x", np.zeros(n + 1)), lambda: setattr(r, "x", np.zeros(n + 1)))
                both("flux of a wrong size", lambda: setattr(j, "flux", np.zeros(n + 2)), lambda: setattr(r, "flux", np.zeros(n + 2)))
            elif op[2] == "none":
                both("copyFrom(nothing)", lambda: j.copyFrom(j, slice(0, 0), slice(0, 0)), lambda: r.copyFrom(r, slice(0, 0), slice(0, 0)))
            elif n > 2:
                both("copyFrom(3 from 2)", lambda: j.copyFrom(j, slice(0, 3), slice(0, 2)), lambda: r.copyFrom(r, slice(0, 3), slice(0, 2)))
            unchanged("a refused request", j, sj)
        done += 1
        same("after " + k, J[op[1]], r)
        label(k)
    return done > 0


def has_nan(p):
    return False


class _Wrap:
    """A GalSim photon array read from a file of this library, whose unset values are NaN."""

    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        return getattr(self.p, n)

    def __len__(self):
        return len(self.p)


# ------------------------------------------------------------------ correlated convolution
@st.composite
def corrcase(draw):
    return [draw(newarr()), draw(st.lists(st.sampled_from(COLS[3:]), max_size=3, unique=True)), draw(S.seeds), draw(st.booleans()),
            draw(st.booleans()), draw(st.sampled_from([0, 3, 3])), draw(st.integers(0, 50)), draw(st.integers(0, 50))]


def correlated(case):
    """Convolving keeps each photon's columns together whatever the order of pairing; the
    order is random only if both arrays are correlated."""
    d, cols2, seed, c1, c2, pad, mix1, mix2 = case
    n = d["n"]
    d = dict(d, how="init")
    e = dict(d, cols=cols2, seed=d["seed"] + 77)
    with maybe_fixed(n + pad if pad else None):
        a, b = build_padded(d, pad, mix1), build_padded(e, pad, mix2)
        a0, b0 = live(a, n), live(b, n)
        if c1:
            a.setCorrelated()
        if c2:
            b.setCorrelated(True)
        rng = JG.BaseDeviate(seed)
        sb = snap(b)
        a.convolve(b, rng)
        unchanged("convolve (right side)", b, sb)
        got = live(a, n)
        equal("the result is correlated if one of the two is", bool(a.isCorrelated()), bool(c1 or c2))
        require(rng != JG.BaseDeviate(seed), "convolve did not use the generator given")
        # each result photon i is photon i of a moved by one photon p(i) of b
        dx = got["x"] - a0["x"]
        dy = got["y"] - a0["y"]
        with np.errstate(all="ignore"):
            df = got["flux"] / a0["flux"] / n
        perm = []
        for i in range(n):
            m = [k for k in range(n) if abs(b0["x"][k] - dx[i]) < 1e-9 and abs(b0["y"][k] - dy[i]) < 1e-9]
            require(m, "photon %d was not moved by a photon of the other array", i)
            perm.append(m)
        if all(len(m) == 1 for m in perm):
            perm = [m[0] for m in perm]
            require(sorted(perm) == list(range(n)), "photons of the right side used twice: %s", perm)
            if not (c1 and c2):
                equal("pairing of uncorrelated arrays", perm, list(range(n)))
            ok = np.abs(a0["flux"]) > 1e-6
            close("flux of the pairs", df[ok], b0["flux"][perm][ok], rtol=1e-9, atol=1e-12)
            for g, cs in GROUPS.items():
                if any(c in d["cols"] for c in cs):
                    for c in cs:
                        close("column " + c + " (kept)", got[c], a0[c], rtol=1e-14)
                elif any(c in cols2 for c in cs):
                    for c in cs:
                        close("column " + c + " (taken)", got[c], b0[c][perm], rtol=1e-14)
        label("corr" if c1 and c2 else "plain", "padded" if pad else "full")
    return n > 1


class maybe_fixed:
    def __init__(self, size):
        self.size = size

    def __enter__(self):
        if self.size:
            self.cm = JG.photon_array.fixed_photon_array_size(self.size)
            self.cm.__enter__()

    def __exit__(self, *a):
        if self.size:
            self.cm.__exit__(*a)


def build_padded(d, pad, mix=0):
    """A photon array with `pad` slots of garbage that must never count: the last ones, or
    scattered among the live ones if `mix` (a seed) is given."""
    p = build_sorted(d, pad)
    if mix and pad:
        n = d["n"]
        live_at = np.sort(np.random.RandomState(mix).permutation(n + pad)[:n])
        dead_at = np.setdiff1d(np.arange(n + pad), live_at)
        src = np.empty(n + pad, dtype=int)
        src[live_at], src[dead_at] = np.arange(n), n + np.arange(pad)
        for k, v in list(p.__dict__.items()):
            if getattr(v, "shape", None) == (n + pad,):
                setattr(p, k, v[src])
    return p


def build_sorted(d, pad):
    n = d["n"]
    v = {c: values(c, n, d["seed"] + i) for i, c in enumerate(COLS) if c in ("x", "y", "flux") or c in d["cols"]}
    r = np.random.RandomState(d["seed"] + 5)
    v = {c: np.concatenate([x, r.uniform(-3, 3, pad)]) for c, x in v.items()}
    return JG.PhotonArray(n, **v)


def live(p, n):
    keep = ~np.asarray(p._nokeep)
    require(keep.sum() == n, "%d photons are live, expected %d", keep.sum(), n)
    return {c: np.asarray(getattr(p, c))[keep] for c in COLS}


def align(b, j, n):
    """Give b the same live slots as j."""
    keep = np.asarray(j._nokeep) == 0
    src = np.empty(len(keep), dtype=int)
    src[keep], src[~keep] = np.arange(n), n + np.arange(len(keep) - n)
    for k, v in list(b.__dict__.items()):
        if getattr(v, "shape", None) == (len(keep),):
            setattr(b, k, v[src])


# ------------------------------------------------------------------ padded arrays
@st.composite
def padcase(draw):
    n = draw(st.sampled_from([1, 3, 6]))
    pad = draw(st.sampled_from([0, 1, 4, 10]))
    d = draw(newarr())
    d["n"] = n
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["scaleFlux", "scaleXY", "setTotal", "convolve", "addTo", "addTo", "file", "repr", "jit", "copyAll",
                                  "setflux", "setx", "categorical", "fileout"]))
        op = [k]
        if k in ("scaleFlux", "scaleXY", "setTotal"):
            op.append(draw(S.signed(0.2, 4.0)))
        elif k in ("convolve", "copyAll", "categorical"):
            m = draw(newarr())
            m["n"] = n
            op += [m, draw(st.integers(0, 10**6))]
        elif k == "addTo":
            op += [draw(st.sampled_from([[3, 3], [7, 4], [12, 12]])), draw(st.tuples(st.integers(-8, 3), st.integers(-8, 3)).map(list)),
                   draw(st.sampled_from("DFI"))]
        elif k in ("setflux", "setx"):
            op.append(draw(st.integers(0, 10**6)))
        ops.append(op)
    return [d, pad, ops, draw(st.integers(0, 50))]


def padded(case):
    """A padded array behaves as the array of its live photons."""
    d, pad, ops, mix = case
    n = d["n"]
    with maybe_fixed(n + pad):
        j = build_padded(d, pad, mix)
        r = RG.PhotonArray(n, **{c: values(c, n, d["seed"] + i) for i, c in enumerate(COLS) if c in ("x", "y", "flux") or c in d["cols"]})
        cmp_live("new", j, r, n, pad)
        for op in ops:
            k = op[0]
            if k in ("scaleFlux", "scaleXY"):
                getattr(j, k)(op[1])
                getattr(r, k)(op[1])
            elif k == "setTotal":
                if abs(r.getTotalFlux()) < 0.05:
                    continue
                j.setTotalFlux(op[1])
                r.setTotalFlux(op[1])
            elif k == "convolve":
                b = build_padded(op[1], pad, op[2] % 50)
                rb = RG.PhotonArray(n, **{c: values(c, n, op[1]["seed"] + i) for i, c in enumerate(COLS) if c in ("x", "y", "flux") or c in op[1]["cols"]})
                sb = snap(b)
                j.convolve(b, JG.BaseDeviate(1))
                unchanged("convolve (right side)", b, sb)
                r.convolve(rb, RG.BaseDeviate(1))
            elif k == "copyAll":
                b = build_padded(op[1], pad)
                rb = RG.PhotonArray(n, **{c: values(c, n, op[1]["seed"] + i) for i, c in enumerate(COLS) if c in ("x", "y", "flux") or c in op[1]["cols"]})
                align(b, j, n)
                j.copyFrom(b)
                r.copyFrom(rb)
            elif k == "categorical":
                b = build_padded(op[1], pad)
                align(b, j, n)
                cat = np.random.RandomState(op[2]).randint(0, 2, n + pad)
                rb = RG.PhotonArray(n, **{c: values(c, n, op[1]["seed"] + i) for i, c in enumerate(COLS) if c in ("x", "y", "flux") or c in op[1]["cols"]})
                keep = ~np.asarray(j._nokeep)
                j._assign_from_categorical_index(jnp.array(cat), 1, b)
                m = cat[keep] == 1
                for c in ("x", "y", "flux"):
                    a = np.array(getattr(r, c))
                    a[m] = getattr(rb, c)[m]
                    setattr(r, c, a)
                for c in ("x", "y", "flux"):
                    close("assigned photons: " + c, np.asarray(getattr(j, c))[keep], getattr(r, c), rtol=1e-11, atol=1e-13)
                return True
            elif k == "addTo":
                (ny, nx), (x0, y0), dt = op[1], op[2], op[3]
                t = {"D": np.float64, "F": np.float32, "I": np.int32}[dt]
                base = np.arange(ny * nx).reshape(ny, nx)
                ij = JG.Image(base.astype(t), xmin=x0, ymin=y0)
                ir = RG.Image(base.astype(float), xmin=x0, ymin=y0)
                a, b = j.addTo(ij), r.addTo(ir)
                tol = 1e-5 if dt == "F" else 1e-10
                want = ir.array
                close("addTo: flux added", f(a), b, rtol=tol, atol=tol)
                got = np.asarray(ij.array)
                equal("addTo: dtype", got.dtype, np.dtype(t))
                if dt == "I":
                    edge = np.abs(want - np.floor(want) - 0.5) < 1e-6
                    close("addTo: integer image", np.where(edge, 0, got), np.where(edge, 0, np.round(want)), rtol=0)
                else:
                    close("addTo: image", got, want, rtol=tol, atol=tol)
            elif k == "file":
                a, _ = file_trip(j, JG)
                cmp_live("read back", a, r, n, pad)
                j = a
            elif k == "fileout":
                path_d = tempfile.mkdtemp(prefix="verif_c16_")
                try:
                    path = os.path.join(path_d, "p.fits")
                    j.write(path)
                    saved = JG.photon_array._JAX_GALSIM_PHOTON_ARRAY_SIZE
                    with JG.photon_array.fixed_photon_array_size(None):
                        a = JG.PhotonArray.read(path)
                        cmp_live("read back outside of the fixed size", a, r, n, pad)
                    equal("the fixed size after leaving an inner context", JG.photon_array._JAX_GALSIM_PHOTON_ARRAY_SIZE, saved)
                finally:
                    shutil.rmtree(path_d, ignore_errors=True)
            elif k == "repr":
                a = eval(repr(j), {"galsim": JG, "array": np.array, "nan": np.nan})
                cmp_live("eval(repr)", a, r, n, pad)
            elif k == "jit":
                j = ident(j)
            elif k in ("setflux", "setx"):
                v = values(k[3:], n + pad, op[1])
                setattr(j, k[3:], v)
                keep = ~np.asarray(j._nokeep)
                setattr(r, k[3:], v[keep])
            cmp_live("after " + k, j, r, n, pad)
            label(k)
    require(JG.photon_array._JAX_GALSIM_PHOTON_ARRAY_SIZE is None, "the fixed size outlived its context")
    return pad > 0


def cmp_live(what, j, r, n, pad):
    equal(what + ": size", j.size(), n + pad)
    v = live(j, n)
    for c in ("x", "y", "flux"):
        close(what + ": live " + c, v[c], getattr(r, c), rtol=1e-11, atol=1e-13)
    for g, cols in GROUPS.items():
        if getattr(r, "hasAllocated" + g)():
            require(bool(getattr(j, "hasAllocated" + g)()), "%s: %s are not there", what, g)
            for c in cols:
                a, b = v[c], np.asarray(getattr(r, c))
                close(what + ": live " + c, np.where(np.isnan(a) & (b == 0), 0.0, a), b, rtol=1e-11)
    close(what + ": getTotalFlux", f(j.getTotalFlux()), r.getTotalFlux(), rtol=1e-10, atol=1e-11)
    dead = np.asarray(j._nokeep)
    require(np.all(np.asarray(j.flux)[dead] == 0), "%s: padding photons carry flux", what)


# ------------------------------------------------------------------ photons from an image
@st.composite
def imgcase(draw):
    return [list(draw(st.sampled_from([(1, 1), (3, 2), (4, 6)]))), draw(st.integers(0, 10**6)), draw(st.sampled_from([0.30071, 1.00031, 2.50313, 100.013])),
            draw(S.seeds), draw(st.sampled_from([None, 1.0, 0.4])), draw(st.tuples(st.integers(-5, 9), st.integers(-5, 9)).map(list)),
            draw(st.sampled_from("DFI")), draw(st.booleans())]


def from_image(case):
    shape, seed, mf, rseed, scale, org, dt, zeros = case
    r = np.random.RandomState(seed)
    a = np.round(r.uniform(-2, 8, shape), 2)
    if zeros:
        a[r.rand(*shape) < 0.3] = 0
    a = a.astype({"D": np.float64, "F": np.float32, "I": np.int32}[dt])
    im = JG.Image(np.array(a), xmin=org[0], ymin=org[1], scale=scale)
    p = JG.PhotonArray.makeFromImage(im, max_flux=mf, rng=JG.BaseDeviate(rseed))
    x, y, fl = (np.asarray(getattr(p, c)) for c in ("x", "y", "flux"))
    tol = 1e-5 if dt == "F" else 1e-11
    require(np.all(np.abs(fl) <= mf * (1 + tol)), "a photon has more than max_flux")
    close("total flux", f(p.getTotalFlux()), a.sum(dtype=float), rtol=tol, atol=tol)
    s = scale or 1.0
    back = JG.Image(np.zeros(shape), xmin=org[0], ymin=org[1])
    p.scaleXY(1.0 / s)
    added = p.addTo(back)
    close("photons put back into pixels", np.asarray(back.array), a.astype(float), rtol=tol, atol=tol * 10)
    close("flux put back", f(added), a.sum(dtype=float), rtol=tol, atol=tol * 10)
    q = RG.PhotonArray.makeFromImage(RG.Image(np.array(a, dtype=float if dt == "I" else a.dtype), xmin=org[0], ymin=org[1], scale=scale), max_flux=mf, rng=RG.BaseDeviate(rseed))
    live_j, live_r = np.sum(fl != 0), np.sum(q.flux != 0)
    equal("number of photons that carry flux", int(live_j), int(live_r))
    close("sizes of the photons", np.sort(fl[fl != 0]), np.sort(q.flux[q.flux != 0]), rtol=tol, atol=tol)
    if len(fl) > 3:
        require(len(np.unique(x)) == len(x) and len(np.unique(y)) == len(y), "photons share positions")
    both("max_flux=0", lambda: JG.PhotonArray.makeFromImage(im, max_flux=0.0), lambda: RG.PhotonArray.makeFromImage(RG.Image(2, 2), max_flux=0.0))
    label(dt)
    return len(fl) > 1


# ------------------------------------------------------------------ equality
@st.composite
def eqcase(draw):
    return [draw(newarr()), draw(st.sampled_from(COLS)), draw(st.integers(0, 7))]


def equality(case):
    d, col, i = case
    a, b = build(d, JG), build(d, JG)
    require(a == b and b == a and not (a != b), "equal photon arrays are unequal")
    v = np.array(getattr(b, col))
    i = i % d["n"]
    v = np.where(np.isnan(v), 0.0, v)
    v[i] += 0.25
    setattr(b, col, v)
    require(a != b and not (a == b), "photon arrays that differ in %s[%d] are equal", col, i)
    require(not (a == 3) and a != build(dict(d, n=d["n"] + 1), JG), "unlike things are equal")
    label(col)
    return True


TESTS = [
    Test("history", history, run, 360, 8000, "at least one operation was done on both arrays", cost=3),
    Test("padded", padcase, padded, 320, 8000, "there was padding", cost=3),
    Test("correlated", corrcase, correlated, 200, 4000, "more than one photon was convolved", cost=1),
    Test("from_image", imgcase, from_image, 160, 3000, "more than one photon was made", cost=1),
    Test("equality", eqcase, equality, 120, 2000, "equal and unequal arrays were compared", cost=0.5),
]
