"""C10: planar coordinate systems."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, close, label
from vlib.specs import JG, RG

KINDS = ("PixelScale", "ShearWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS", "AffineTransform")
coord = st.one_of(S.fl(-100, 100, 3), st.integers(-50, 50).map(float), S.near(0.0), S.fl(-1e5, 1e5, 1))
POS = ("D", "I")


@st.composite
def poses(draw, kinds=POS):
    k = draw(st.sampled_from(kinds))
    if k == "I":
        return ["I", draw(st.integers(-200, 200)), draw(st.integers(-200, 200))]
    return ["D", draw(coord), draw(coord)]


def mkpos(p, G):
    return (G.PositionI if p[0] == "I" else G.PositionD)(p[1], p[2])


@st.composite
def step(draw):
    k = draw(st.sampled_from(["shift", "shiftw", "withOrigin", "inverse", "local", "jacobian", "affine", "affinew", "copy"]))
    d = [k]
    if k in ("shift", "affine", "affinew", "local"):
        d.append(draw(poses()))
    if k in ("shiftw", "withOrigin"):
        d += [draw(poses()), draw(poses(("D",)))]
    return d


@st.composite
def cases(draw):
    d = draw(S.wcses(KINDS, scale=(0.05, 5.0)))
    if draw(st.integers(0, 5)) == 0:
        # lattice-friendly special matrices and tiny/huge scales
        if "jac" in d:
            d["jac"] = draw(st.sampled_from([
                [1.0, 0.0, 0.0, 1.0], [0.0, 1.0, 1.0, 0.0], [0.0, -1.0, 1.0, 0.0], [-0.2, 0.0, 0.0, 0.2],
                [0.2, 0.0, 0.0, -0.2], [-1.0, 0.0, 0.0, -1.0], [0.0, 3.0, -2.0, 0.0], [1e-3, 0.0, 2e-4, 1e-3]]))
        else:
            d["scale"] = draw(st.sampled_from([1.0, 1e-3, 50.0, 0.5]))
    return dict(
        w=d, steps=draw(st.lists(step(), max_size=3)),
        pos=draw(poses()), wpos=draw(poses()),
        arr=draw(st.sampled_from(["np", "np2d", "jnp", "scalar", "npscalar", "f32", "int"])),
        xs=draw(st.lists(st.tuples(coord, coord).map(list), min_size=4, max_size=4)),
        shear=draw(S.small_shear(0.7)), by=draw(st.sampled_from(["image", "world", "none"])),
        fr=draw(st.one_of(S.near(1.0), S.signed(0.2, 3.0))),
        off=draw(st.sampled_from(["none", "tuple", "pos"])), offxy=[draw(S.fl(-2, 2, 3)), draw(S.fl(-2, 2, 3))],
        leaf=draw(S.leaves(("Gaussian", "Exponential", "Moffat", "Box"), moffat_beta=(2.1, 5.0))),
        lop=draw(st.lists(S.ops(("shear", "shift", "rotate", "transform")), max_size=1)),
        sky=draw(st.sampled_from(["D", "F", "I", "S", "US"])), level=draw(S.fl(1, 800, 2)),
        pts=draw(st.lists(st.tuples(S.fl(-3, 3, 3), S.fl(-3, 3, 3)).map(list), min_size=2, max_size=2)))


def mag(*v):
    return float(max([1.0] + [np.max(np.abs(np.asarray(x, float))) for x in v]))


def same_pos(what, g, w, tol):
    if type(g).__name__ != type(w).__name__:
        raise Violation("%s: %r, reference %r" % (what, g, w))
    if abs(float(g.x) - w.x) > tol or abs(float(g.y) - w.y) > tol:
        raise Violation("%s: %r, reference %r (tol %g)" % (what, g, w, tol))


def params_of(w):
    out = {}
    for n in ("scale", "dudx", "dudy", "dvdx", "dvdy", "x0", "y0", "u0", "v0"):
        try:
            out[n] = float(np.asarray(getattr(w, n)))
        except AttributeError:
            pass
    if hasattr(w, "shear"):
        out["g1"], out["g2"] = float(np.asarray(w.shear.g1)), float(np.asarray(w.shear.g2))
    return out


def same_wcs(what, j, r, tol):
    if type(j).__name__ != type(r).__name__:
        raise Violation("%s: %r, reference %r" % (what, j, r))
    a, b = params_of(j), params_of(r)
    if set(a) != set(b):
        raise Violation("%s: attributes %s, reference %s" % (what, sorted(a), sorted(b)))
    for n in b:
        t = tol if n in ("x0", "y0", "u0", "v0") else 1e-12 * (1 + abs(b[n]))
        if not abs(a[n] - b[n]) <= t:
            raise Violation("%s: %s is %r, reference %r" % (what, n, a[n], b[n]))
    for n in ("isPixelScale", "isLocal", "isUniform", "isCelestial"):
        f, g = getattr(j, n)(), getattr(r, n)()
        if bool(f) != bool(g):
            raise Violation("%s: %s() is %s" % (what, n, f))


def matrix(r):
    return np.asarray(r.jacobian().getMatrix())


def wcs(case):
    j, r = S.make_wcs(case["w"], JG), S.make_wcs(case["w"], RG)
    same_wcs("constructed", j, r, 0)
    M = matrix(r)
    sv = np.linalg.svd(M, compute_uv=False)
    hi, lo = max(1.0, sv[0]), min(1.0, sv[1])
    scale = mag(*[v for v in params_of(r).values()])
    for s in case["steps"]:
        k = s[0]
        before = repr(j)

        def do(w, G):
            if k == "shift":
                p = mkpos(s[1], G)
                return w.shiftOrigin(p), [p]
            if k == "shiftw":
                p, q = mkpos(s[1], G), mkpos(s[2], G)
                return w.shiftOrigin(p, q), [p, q]
            if k == "withOrigin":
                p, q = mkpos(s[1], G), mkpos(s[2], G)
                return w.withOrigin(p, q), [p, q]
            if k == "inverse":
                return w.inverse(), []
            if k == "local":
                return w.local(mkpos(s[1], G)), []
            if k == "jacobian":
                return w.jacobian(), []
            if k == "affine":
                p = mkpos(s[1], G)
                return w.affine(image_pos=p), [p]
            if k == "affinew":
                p = mkpos(s[1], G)
                return w.affine(world_pos=p), [p]
            return w.copy(), []

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (jn, ja), (rn, ra) = do(j, JG), do(r, RG)
        for x, y in zip(ja, ra):
            same_pos("argument of %s" % k, x, y, 0)
        if repr(j) != before:
            raise Violation("%s changed its operand: %s is now %r" % (k, before, j))
        vals = [v for v in params_of(rn).values()] + [v for t in s[1:] for v in t[1:]]
        scale = max(scale, mag(*vals)) * (hi / lo if k in ("affinew", "inverse", "affine") else 1.0)
        j, r = jn, rn
        same_wcs("after %s" % s, j, r, 1e-13 * scale * hi / lo)
        M = matrix(r)
        sv = np.linalg.svd(M, compute_uv=False)
        hi, lo = max(1.0, sv[0]), min(1.0, sv[1])
    eps = 1e-13 * (1 + sv[0] / sv[1])
    # ------------------------------------------------------- the map itself
    jp, rp = mkpos(case["pos"], JG), mkpos(case["pos"], RG)
    m = mag(case["pos"][1:], scale)
    tw, ti = eps * m * hi, eps * m * hi / lo
    W = j.toWorld(jp)
    same_pos("toWorld", W, r.toWorld(rp), tw)
    same_pos("posToWorld", j.posToWorld(jp), r.posToWorld(rp), tw)
    B = j.toImage(W)
    if abs(float(B.x) - rp.x) > ti * 4 or abs(float(B.y) - rp.y) > ti * 4:
        raise Violation("toImage(toWorld(%r)) = %r" % (jp, B))
    jq, rq = mkpos(case["wpos"], JG), mkpos(case["wpos"], RG)
    tq = eps * mag(case["wpos"][1:], scale) * hi / lo
    same_pos("toImage", j.toImage(jq), r.toImage(rq), tq)
    same_pos("posToImage", j.posToImage(jq), r.posToImage(rq), tq)
    Q = j.toWorld(j.toImage(jq))
    if abs(float(Q.x) - rq.x) > tq * hi * 4 or abs(float(Q.y) - rq.y) > tq * hi * 4:
        raise Violation("toWorld(toImage(%r)) = %r" % (jq, Q))
    # coordinates in every accepted form
    x = np.array([p[0] for p in case["xs"]])
    y = np.array([p[1] for p in case["xs"]])
    kind = case["arr"]
    if kind == "np2d":
        x, y = x.reshape(2, 2), y.reshape(2, 2)
    elif kind == "scalar":
        x, y = float(x[0]), float(y[0])
    elif kind == "npscalar":
        x, y = x[0], y[0]
    elif kind == "f32":
        x, y = x.astype(np.float32), y.astype(np.float32)
    elif kind == "int":
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    jx, jy = x, y
    if kind == "jnp":
        import jax.numpy as jnp

        jx, jy = jnp.array(x), jnp.array(y)
    keep = np.array(x, float), np.array(y, float)
    tol = (1e-5 if kind == "f32" else eps) * mag(x, y, scale) * hi / lo
    rx, ry = np.asarray(x, float), np.asarray(y, float)
    for n, inv in (("toWorld", 0), ("xyTouv", 0), ("toImage", 1), ("uvToxy", 1)):
        u, v = getattr(j, n)(jx, jy)
        ru, rv = getattr(r, n)(rx, ry)
        for nm, a, b in (("0", u, ru), ("1", v, rv)):
            close("%s[%s] (%s)" % (n, nm, kind), np.asarray(a, float), np.asarray(b), 0, tol)
        if not (np.array_equal(np.asarray(jx, float), keep[0]) and np.array_equal(np.asarray(jy, float), keep[1])):
            raise Violation("%s changed its argument" % n)
        # matrix form of the same map
        if not inv:
            o = np.array([[r.x0], [r.y0]])
            wo = np.array([[r.u0], [r.v0]])
            P = M @ (np.array([rx.ravel(), ry.ravel()]) - o) + wo
            close("matrix form", np.array([np.ravel(u), np.ravel(v)], float), P, 0, tol)
    # ----------------------------------------------------------- local forms
    by = case["by"]
    kj = dict(image=dict(image_pos=jp), world=dict(world_pos=jq), none={})[by]
    kr = dict(image=dict(image_pos=rp), world=dict(world_pos=rq), none={})[by]
    same_wcs("local", j.local(**kj), r.local(**kr), 0)
    jj = j.jacobian(**kj)
    same_wcs("jacobian", jj, r.jacobian(**kr), 0)
    close("getMatrix", np.asarray(jj.getMatrix()), M, 1e-13, 1e-14 * sv[0])
    for n in ("pixelArea", "minLinearScale", "maxLinearScale"):
        got = float(getattr(j, n)(**kj))
        want = float(getattr(r, n)(**kr))
        close(n, got, want, 1e-11 * (1 if n != "minLinearScale" else sv[0] / sv[1]))
        close(n + " vs matrix", got, {"pixelArea": sv[0] * sv[1], "minLinearScale": sv[1],
                                      "maxLinearScale": sv[0]}[n], 1e-10 * sv[0] / sv[1])
    aff = j.affine(**kj)
    same_wcs("affine", aff, r.affine(**kr), tq * hi + tw)
    P1, P2 = aff.toWorld(jp), j.toWorld(jp)
    ta = (tw + tq * hi) * 4
    if abs(float(P1.x - P2.x)) > ta or abs(float(P1.y - P2.y)) > ta:
        raise Violation("affine approximation gives %r, the map %r" % (P1, P2))
    inv = j.inverse()
    P1, P2 = inv.toWorld(jq), j.toImage(jq)
    if abs(float(P1.x - P2.x)) > 4 * tq or abs(float(P1.y - P2.y)) > 4 * tq:
        raise Violation("inverse().toWorld gives %r, toImage %r" % (P1, P2))
    sc, sh, th, fl = jj.getDecomposition()
    rs, rh, rt, rf = r.jacobian().getDecomposition()
    c = sv[0] / sv[1]
    close("decomposition scale", float(sc), rs, 1e-11 * c)
    if bool(fl) != bool(rf):
        raise Violation("decomposition flip %s, reference %s" % (fl, rf))
    close("decomposition shear", complex(sh.shear), complex(rh.shear), 0, 1e-11 * c)
    t = float(th.rad)
    R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    F = np.array([[0.0, 1.0], [1.0, 0.0]]) if bool(fl) else np.eye(2)
    D = float(sc) * (np.asarray(sh.getMatrix()) @ R @ F)  # flip, rotate, shear, dilate
    close("decomposition recomposed", D, M, 0, 1e-10 * c * sv[0])
    # -------------------------------------------------------- shears, profiles
    js, rs_ = JG.Shear(g1=case["shear"][0], g2=case["shear"][1]), RG.Shear(g1=case["shear"][0], g2=case["shear"][1])
    for n in ("toWorld", "toImage", "shearToWorld", "shearToImage"):
        close(n + "(shear)", complex(getattr(j, n)(js, **kj).shear), complex(getattr(r, n)(rs_, **kr).shear),
              0, 1e-11 * c * c / (1 - rs_.g))
    tree = {"on": case["leaf"], "ops": case["lop"]}
    gj, gr = S.build(tree, JG), S.build(tree, RG)
    f = dict(flux_ratio=case["fr"])
    oj = or_ = {}
    if case["off"] == "tuple":
        oj = or_ = dict(offset=tuple(case["offxy"]))
    elif case["off"] == "pos":
        oj, or_ = dict(offset=JG.PositionD(*case["offxy"])), dict(offset=RG.PositionD(*case["offxy"]))
    for n in ("toWorld", "toImage", "profileToWorld", "profileToImage"):
        a = getattr(j, n)(gj, **kj, **f, **oj)
        b = getattr(r, n)(gr, **kr, **f, **or_)
        close(n + "(profile) flux", float(a.flux), b.flux, 1e-10 * c)
        same_pos(n + "(profile) centroid", a.centroid, b.centroid, 1e-11 * c * hi / lo * mag(b.centroid.x, b.centroid.y))
        s_ = np.sqrt(abs(np.linalg.det(M))) if n.endswith("World") else 1 / np.sqrt(abs(np.linalg.det(M)))
        for px, py in case["pts"]:
            pj = (px * s_ + b.centroid.x, py * s_ + b.centroid.y)
            if case["leaf"]["leaf"] != "Box":
                close("%s(profile).xValue" % n, float(a.xValue(*pj)), b.xValue(*pj), 1e-8 * c * c,
                      1e-9 * abs(b.max_sb))
            kk = (px / s_, py / s_)
            close("%s(profile).kValue" % n, complex(a.kValue(*kk)), complex(b.kValue(*kk)), 1e-7 * c * c,
                  2e-5 * abs(b.flux) if case["leaf"]["leaf"] == "Moffat" else 1e-9 * c * c * abs(b.flux))
    # -------------------------------------------------------------- sky images
    dt = S.DTYPES[case["sky"]]
    ij, ir = (G.Image(4, 3, dtype=dt, init_value=7) for G in (JG, RG))
    level = case["level"] if case["sky"] != "S" else case["level"] / 50
    want = float(r.pixelArea()) * level
    if dt(1).dtype.kind == "f" or want < np.iinfo(dt).max:
        j.makeSkyImage(ij, level)
        r.makeSkyImage(ir, level)
        if ij.array.dtype != ir.array.dtype:
            raise Violation("sky image dtype %s" % ij.array.dtype)
        if dt(1).dtype.kind == "f" or abs(want - np.round(want)) > 1e-9 * want:
            close("makeSkyImage", np.asarray(ij.array), ir.array, 1e-6 if case["sky"] == "F" else 1e-10)
    label(type(r).__name__)
    return not r.isPixelScale()


TESTS = [Test("wcs", cases, wcs, 800, 16000, "the final coordinate system is not a plain pixel scale")]
