"""C11: the sky: spherical geometry, projections and FITS world coordinates."""

import datetime
import math
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, f, label
from vlib.specs import JG, RG

warnings.filterwarnings("ignore")
PI = math.pi

# ------------------------------------------------------------------ sky points
decs = st.one_of(
    S.fl(-1.57, 1.57, 6),
    S.fl(-1.3, 1.3, 4),
    st.sampled_from([0.0, 1.5, -1.5, 1.5707, -1.5707, 0.3]),
)
ras = st.one_of(
    S.fl(-7.0, 7.0, 6),
    st.sampled_from([0.0, PI, -PI, 2 * PI, 6.2831, 3.1416, -3.1415, 1e-7]),
)
pole = st.tuples(ras, st.sampled_from([PI / 2, -PI / 2])).map(list)
points = st.one_of(st.tuples(ras, decs).map(list), st.tuples(ras, decs).map(list), pole)


@st.composite
def triples(draw):
    a = draw(points)
    out = [a]
    for _ in range(2):
        k = draw(st.sampled_from(["far", "far", "near", "tiny", "same", "anti"]))
        if k == "far":
            p = draw(points)
        elif k == "same":
            p = list(a)
        elif k == "anti":
            p = [a[0] + PI, -a[1]]
        else:
            s = 1e-2 if k == "near" else 1e-6
            p = [a[0] + s * draw(S.fl(-1, 1, 3)), min(max(a[1] + s * draw(S.fl(-1, 1, 3)), -PI / 2), PI / 2)]
        out.append(p)
    return out


def cc(G, p):
    return G.CelestialCoord(p[0] * G.radians, p[1] * G.radians)


def wrapdiff(a, b, per=2 * PI):
    return np.abs((np.asarray(a) - np.asarray(b) + per / 2) % per - per / 2)


def same_coord(what, j, r, tol):
    """Both points on the sphere, compared as directions."""
    a = np.array([f(v) for v in j.get_xyz()])
    b = np.array([f(v) for v in r.get_xyz()])
    if not np.all(np.abs(a - b) <= tol):
        raise Violation("%s: %s, reference %s" % (what, j, r))


def geometry(case):
    pts, th, e0, e1, date = case
    J = [cc(JG, p) for p in pts]
    R = [cc(RG, p) for p in pts]
    a, b, c = J
    A, B, C = R
    for j, r, p in zip(J, R, pts):
        close("xyz", [f(v) for v in j.get_xyz()], list(r.get_xyz()), rtol=0, atol=2e-15)
        close("rad", [f(v) for v in j.rad], list(r.rad), rtol=1e-15)
        n, m = j.normal(), r.normal()
        if wrapdiff(f(n.ra.rad), m.ra.rad) > 1e-14 or not (-1e-14 < f(n.ra.rad) <= 2 * PI + 1e-14):
            raise Violation("normal(): %s, reference %s" % (n, m))
        close("normal().dec", f(n.dec.rad), m.dec.rad, rtol=0, atol=1e-15)
        x = [f(v) for v in j.get_xyz()]
        k = JG.CelestialCoord.from_xyz(*[1.7 * v for v in x])
        same_coord("from_xyz(get_xyz)", k, r, 5e-15)
        if abs(p[1]) < PI / 2 - 1e-6:
            # (a pole has no ra to keep)
            d = wrapdiff(f(k.ra.rad), p[0])
            if d * math.cos(p[1]) > 1e-14:
                raise Violation("from_xyz: ra %s, expected %s" % (f(k.ra.rad), p[0]))
            ra, dec, rr = JG.CelestialCoord.xyz_to_radec(*[1.7 * v for v in x], return_r=True)
            close("xyz_to_radec r", f(rr), 1.7, rtol=1e-14)
            if wrapdiff(f(ra), p[0]) > 1e-14 / math.cos(p[1]) or abs(f(dec) - p[1]) > 1e-14 / math.cos(p[1]):
                raise Violation("xyz_to_radec: %r, %r for %s" % (f(ra), f(dec), p))
        close("radec_to_xyz", [f(v) for v in JG.CelestialCoord.radec_to_xyz(p[0], p[1], 2.5)],
              [2.5 * v for v in r.get_xyz()], rtol=0, atol=1e-14)
    dm = {}
    for n, (i, k) in {"AB": (0, 1), "AC": (0, 2), "BC": (1, 2)}.items():
        g, w = f(J[i].distanceTo(J[k]).rad), R[i].distanceTo(R[k]).rad
        close("distance " + n, g, w, rtol=1e-12, atol=4e-14)
        close("distance is symmetric", f(J[k].distanceTo(J[i]).rad), g, rtol=1e-12, atol=4e-14)
        dm[n] = w
    if dm["BC"] > dm["AB"] + dm["AC"] + 1e-12:
        raise Violation("triangle inequality")
    sab, sac, sbc = math.sin(dm["AB"]), math.sin(dm["AC"]), math.sin(dm["BC"])
    live = min(dm.values()) > 1e-5 and max(dm.values()) < 3.1
    if min(sab, sac) > 1e-5:
        g, w = f(a.angleBetween(b, c).rad), A.angleBetween(B, C).rad
        if wrapdiff(g, w) > 2e-14 / (sab * sac):
            raise Violation("angleBetween: %r, reference %r" % (g, w))
        if wrapdiff(f(a.angleBetween(c, b).rad), -g) > 2e-14 / (sab * sac):
            raise Violation("angleBetween is not antisymmetric")
    if max(dm.values()) < 3.1:
        g, w = f(a.area(b, c)), A.area(B, C)
        close("area", g, w, rtol=1e-9, atol=1e-13)
        close("area is symmetric", f(b.area(c, a)), w, rtol=1e-7, atol=1e-12)
    if 1e-4 < dm["AB"] < 3.1:
        gj = a.greatCirclePoint(b, th * JG.radians)
        gr = A.greatCirclePoint(B, th * RG.radians)
        same_coord("greatCirclePoint", gj, gr, 1e-13 / sab)
        same_coord("greatCirclePoint at the distance", a.greatCirclePoint(b, a.distanceTo(b)), B, 1e-13 / sab)
    # frames
    pj, pr = a.precess(e0, e1), A.precess(e0, e1)
    same_coord("precess", pj, pr, 1e-13)
    # (reversed precession is exact only to third order in time: not an identity)
    (lj, bj), (lr, br) = a.galactic(), A.galactic()
    tol = 2e-15 / max(math.cos(br.rad), 1e-9) + 2e-15
    close("galactic latitude", f(bj.rad), br.rad, rtol=0, atol=tol)
    if wrapdiff(f(lj.rad), lr.rad) > tol:
        raise Violation("galactic longitude %r, reference %r" % (f(lj.rad), lr.rad))
    same_coord("from_galactic", JG.CelestialCoord.from_galactic(lj, bj), A, 1e-14 + 3e-15 / max(math.cos(br.rad), 1e-9))
    same_coord("from_galactic vs reference",
               JG.CelestialCoord.from_galactic(pts[1][0] * JG.radians, pts[1][1] * JG.radians),
               RG.CelestialCoord.from_galactic(pts[1][0] * RG.radians, pts[1][1] * RG.radians), 1e-14)
    d = None if date is None else datetime.datetime(*date)
    kw = {"date": d} if d else {"epoch": e0}
    (lj, bj), (lr, br) = a.ecliptic(**kw), A.ecliptic(**kw)
    tol = 1e-14 / max(math.cos(br.rad), 1e-9) + 2e-15
    close("ecliptic latitude", f(bj.rad), br.rad, rtol=0, atol=tol)
    if wrapdiff(f(lj.rad), lr.rad) > tol:
        raise Violation("ecliptic longitude %r, reference %r" % (f(lj.rad), lr.rad))
    same_coord("from_ecliptic",
               JG.CelestialCoord.from_ecliptic(lj, bj, **kw), A, 2e-14 + 1e-14 / max(math.cos(br.rad), 1e-9))
    if live:
        label("generic triangle")
    return max(dm.values()) > 0


def geocase():
    return st.tuples(triples(), S.fl(-4, 4, 3), st.sampled_from([1950.0, 2000.0, 1975.5, 2021.3]),
                     st.sampled_from([2000.0, 1950.0, 2050.0]),
                     st.one_of(st.none(), st.sampled_from([(2014, 7, 23, 3, 0, 0), (1999, 1, 1, 0, 0, 0)]))).map(list)


# ------------------------------------------------------------------ projections
PROJ = [None, "gnomonic", "stereographic", "lambert", "postel"]


@st.composite
def projcase(draw):
    p = draw(points)
    k = draw(st.integers(0, 4))
    r = draw(st.sampled_from([1e-4, 1e-2, 0.3, 1.0]))
    n = 3
    uv = [[r * draw(S.fl(-1, 1, 4)), r * draw(S.fl(-1, 1, 4))] for _ in range(n)]
    if draw(st.integers(0, 5)) == 0:
        uv[0] = [0.0, 0.0]
    return [p, k, uv]


def projection(case):
    p, k, uv = case
    P = PROJ[k]
    a, A = cc(JG, p), cc(RG, p)
    scale = max(max(map(abs, w)) for w in uv)
    u = np.array([w[0] for w in uv])
    v = np.array([w[1] for w in uv])
    n_ok = 0
    u0, v0 = u.copy(), v.copy()
    ra, dec = a.deproject_rad(u, v, projection=P)
    close("deproject_rad changed its argument", [u, v], [u0, v0])
    RA, DEC = A.deproject_rad(u.copy(), v.copy(), projection=P)
    for i in range(len(u)):
        cd = math.cos(DEC[i])
        if cd < 1e-7:
            continue
        if wrapdiff(f(ra[i]), RA[i]) * cd > 1e-14 or abs(f(dec[i]) - DEC[i]) * cd > 3e-15:
            raise Violation("deproject_rad %s: (%r, %r), reference (%r, %r)"
                            % (P, f(ra[i]), f(dec[i]), RA[i], DEC[i]))
        d = a.deproject(u[i] * JG.radians, v[i] * JG.radians, projection=P)
        same_coord("deproject", d, A.deproject(u[i] * RG.radians, v[i] * RG.radians, projection=P), 1e-14 / cd)
        D = RG.CelestialCoord(RA[i] * RG.radians, DEC[i] * RG.radians)
        r = math.hypot(u[i], v[i])
        # (the library's own formula loses digits for postel near the centre)
        tol = 1e-13 if P != "postel" else 1e-13 / max(r, 1e-7)
        uj, vj = a.project(cc(JG, [RA[i], DEC[i]]), projection=P)
        ur, vr = A.project(D, projection=P)
        if math.isfinite(ur.rad) and math.isfinite(vr.rad):
            close("project u", f(uj.rad), ur.rad, rtol=tol, atol=tol * max(r, 1e-2))
            close("project v", f(vj.rad), vr.rad, rtol=tol, atol=tol * max(r, 1e-2))
        elif not r < 1e-6:
            raise Inconclusive("reference not finite")
        else:
            label("reference not finite at the centre")
        # the projection's inverse returns the starting point
        close("project(deproject) u", f(uj.rad), u[i], rtol=0, atol=max(3e-15, tol * (r + r**3)) / cd)
        close("project(deproject) v", f(vj.rad), v[i], rtol=0, atol=max(3e-15, tol * (r + r**3)) / cd)
        uu, vv = a.project_rad(RA[i], DEC[i], projection=P)
        UU, VV = A.project_rad(RA[i], DEC[i], projection=P)
        if not (math.isfinite(UU) and math.isfinite(VV)):
            UU, VV = u[i], v[i]  # (the reference's rounding error at the centre)
        close("project_rad", [f(uu), f(vv)], [UU, VV], rtol=tol, atol=tol * max(r, 1e-2))
        if cd > 1e-3:
            j = np.asarray(a.jac_deproject_rad(u[i], v[i], projection=P))
            R = np.asarray(A.jac_deproject_rad(u[i], v[i], projection=P))
            if P == "postel" and r < 1e-5 and r > 0:
                # (c - s) / r^2 cancels: both libraries lose digits
                close("jac_deproject_rad", j, R, rtol=0, atol=1e-5)
            else:
                close("jac_deproject_rad", j, R, rtol=0, atol=1e-12 / cd)
            j2 = np.asarray(a.jac_deproject(u[i] * JG.radians, v[i] * JG.radians, projection=P))
            close("jac_deproject", j2, j, rtol=1e-12, atol=1e-14)
            # ... and is the derivative of the projection
            h = 1e-4
            if cd > 0.05:
                uu4 = np.array([u[i] + h, u[i] - h, u[i], u[i]])
                vv4 = np.array([v[i], v[i], v[i] + h, v[i] - h])
                r4, d4 = A.deproject_rad(uu4, vv4, projection=P)
                num = np.array([[((r4[0] - r4[1] + PI) % (2 * PI) - PI) * cd, ((r4[2] - r4[3] + PI) % (2 * PI) - PI) * cd],
                                [d4[0] - d4[1], d4[2] - d4[3]]]) / (2 * h)
                if cd > 0.2 and r < 1.2:
                    close("jac_deproject is the derivative", j, num * [[-1], [1]], rtol=0, atol=1e-4)
        n_ok += r > 0
    return n_ok > 0


# ----------------------------------------------------------------- FITS headers
TYPES = ["TAN", "STG", "ZEA", "ARC", "TPV", "TANPV", "TAN-SIP", "STG-SIP", "ZEA-SIP", "ARC-SIP", "TNX"]


def small(draw, n, s):
    return [s * draw(S.fl(-1, 1, 3)) for _ in range(n)]


@st.composite
def headers(draw, types=TYPES):
    """A FITS header (as a dict) of a celestial coordinate system with small distortions."""
    t = draw(st.sampled_from(types))
    scale = draw(st.sampled_from([0.05, 0.26, 1.0, 5.0])) / 3600.0
    jac = draw(S.jacobians(1.0, 1.0001, 0.3))
    cd = [scale * x for x in jac]
    cd[0], cd[1] = -cd[0], -cd[1]
    h = {}
    code = {"TANPV": "TAN"}.get(t, t)
    flip = draw(st.integers(0, 3)) == 0 and t != "TNX"
    ra = draw(st.one_of(S.fl(0, 360, 4), st.sampled_from([0.0, 359.999, 180.0])))
    dec = draw(st.one_of(S.fl(-85, 85, 4), st.sampled_from([0.0, 89.9, -60.0])))
    unit = draw(st.sampled_from([None, "deg", "deg", "arcsec", "rad"])) if not t.startswith("T") else \
        draw(st.sampled_from([None, "deg"]))
    fac = {None: 1.0, "deg": 1.0, "arcsec": 3600.0, "rad": PI / 180}[unit]
    ctype = ["RA---" + code, "DEC--" + code]
    crval = [ra * fac, dec * fac]
    rows = [[x * fac for x in cd[:2]], [x * fac for x in cd[2:]]]
    if flip:
        ctype.reverse(), crval.reverse()
        rows.reverse()
    h["CTYPE1"], h["CTYPE2"] = ctype
    h["CRVAL1"], h["CRVAL2"] = crval
    h["CRPIX1"], h["CRPIX2"] = draw(S.fl(-200, 2000, 2)), draw(S.fl(-200, 2000, 2))
    if unit:
        h["CUNIT1"] = h["CUNIT2"] = unit
    how = draw(st.sampled_from(["cd", "cd", "cd", "pc", "cdelt"]))
    if how == "cd":
        for i in (0, 1):
            for j in (0, 1):
                h["CD%d_%d" % (i + 1, j + 1)] = rows[i][j]
    elif how == "pc":
        h["CDELT1"], h["CDELT2"] = scale * fac, 1.5 * scale * fac
        for i in (0, 1):
            for j in (0, 1):
                h["PC%d_%d" % (i + 1, j + 1)] = rows[i][j] / scale / fac
    else:
        h["CDELT1"], h["CDELT2"] = -scale * fac, 1.2 * scale * fac
    span = 300 * scale  # degrees
    if t in ("TPV", "TANPV"):
        nord = draw(st.sampled_from([1, 2, 3, 3, 4, 5]))
        kmax = (nord + 1) * (nord + 2) // 2
        odd = [3, 11, 23, 39]
        ks = [k for k in range(40) if k not in odd][:kmax]
        degs = [n for n in range(nord + 1) for _ in range(n + 1)]
        # full last order in at least one axis, so that the order is what it seems
        for ax in (1, 2):
            for n, k in zip(degs, ks):
                c = draw(S.fl(-1, 1, 3)) * 0.02
                h["PV%d_%d" % (ax, k)] = (1.0 + c if k == 1 else c * span ** (1 - n))
        if h["PV1_%d" % ks[-1]] == 0:
            h["PV1_%d" % ks[-1]] = 0.01 * span ** (1 - nord)
    elif t.endswith("SIP"):
        ao, bo = draw(st.integers(2, 4)), draw(st.integers(2, 4))
        h["A_ORDER"], h["B_ORDER"] = ao, bo
        for c, o in (("A", ao), ("B", bo)):
            for i in range(o + 1):
                for j in range(o + 1 - i):
                    if i + j >= 2 and draw(st.booleans()):
                        h["%s_%d_%d" % (c, i, j)] = 0.01 * draw(S.fl(-1, 1, 3)) * 300.0 ** (1 - i - j)
        if draw(st.booleans()):
            o1, o2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
            h["AP_ORDER"], h["BP_ORDER"] = o1, o2
            for c, o in (("AP", o1), ("BP", o2)):
                for i in range(o + 1):
                    for j in range(o + 1 - i):
                        if i + j >= 1 and draw(st.booleans()):
                            h["%s_%d_%d" % (c, i, j)] = 0.005 * draw(S.fl(-1, 1, 3)) * 300.0 ** (1 - i - j)
    elif t == "TNX":
        code = draw(st.sampled_from([1, 1, 2]))
        for n, (ax, cor) in enumerate((("ra", "lngcor"), ("dec", "latcor")), 1):
            c = [draw(S.fl(-1, 1, 3)) * 0.01 * span for _ in range(10)]
            lim = [-span * 1.1, span * 1.2, -span, span * 1.3]
            s = "wtype=tnx axtype=%s %s = \"%d. 4. 4. 2. %s \"" % (
                ax, cor, code, " ".join("%.16g" % x for x in lim + c))
            i = 1
            while s:
                piece, s = s[:68], s[68:]
                # keep the pieces free of trailing blanks, which FITS cards lose
                while piece.endswith(" ") and s:
                    s = piece[-1] + s
                    piece = piece[:-1]
                h["WAT%d_%03d" % (n, i)] = piece
                i += 1
    return h


@st.composite
def wcscase(draw):
    h = draw(headers())
    offs = [[draw(S.fl(-300, 300, 2)), draw(S.fl(-300, 300, 2))] for _ in range(3)]
    return [h, offs, draw(st.sampled_from([None, None, [5, -3], [10.5, 2.25]])), draw(st.booleans()),
            draw(st.sampled_from([None, [2, -7]]))]


def make_fits(G, h, origin, asheader):
    hd = dict(h)
    if asheader:
        hd = G.FitsHeader(header=hd)
    kw = {}
    if origin is not None:
        kw["origin"] = (G.PositionI if isinstance(origin[0], int) else G.PositionD)(*origin)
    return G.GSFitsWCS(header=hd, **kw)


def fitswcs(case):
    h, offs, origin, asheader, shift = case
    try:
        R = make_fits(RG, h, origin, asheader)
    except Exception as e:  # noqa: BLE001
        raise Inconclusive("reference refuses the header: %r" % e)
    J = make_fits(JG, h, origin, asheader)
    if J.wcs_type != R.wcs_type or J.projection != R.projection:
        raise Violation("wcs_type %s/%s, reference %s/%s" % (J.wcs_type, J.projection, R.wcs_type, R.projection))
    label(h["CTYPE1"][5:] if h["CTYPE1"].startswith("RA") else "flipped")
    if shift is not None:
        d = JG.PositionI(*shift)
        J = J.shiftOrigin(d)
        R = R.shiftOrigin(RG.PositionI(*shift))
        if (int(d.x), int(d.y)) != tuple(shift):
            raise Violation("shiftOrigin changed its argument")
    close("crpix", J.crpix, R.crpix, rtol=1e-14)
    close("cd", J.cd, R.cd, rtol=1e-13)
    for n in ("pv", "ab", "abp"):
        a, b = getattr(J, n), getattr(R, n)
        if (a is None) != (b is None):
            raise Violation("%s: %s, reference %s" % (n, a, b))
        if b is not None:
            close(n, a, b, rtol=1e-12, atol=1e-13 * np.abs(b).max())
    pix = math.sqrt(abs(np.linalg.det(R.cd))) * PI / 180  # radians
    cx, cy = float(R.crpix[0]), float(R.crpix[1])
    xs = np.array([cx + o[0] for o in offs])
    ys = np.array([cy + o[1] for o in offs])
    x0, y0 = xs.copy(), ys.copy()
    done = 0
    ra, dec = J.xyToradec(xs, ys, units="rad")
    close("xyToradec changed its argument", [xs, ys], [x0, y0])
    RA, DEC = R.xyToradec(x0.copy(), y0.copy(), units="rad")
    t = 1e-9 * pix + 1e-15  # a billionth of a pixel
    for i in range(3):
        cdec = math.cos(DEC[i])
        p = (float(x0[i]), float(y0[i]))
        if cdec < 1e-6:
            continue
        if wrapdiff(f(ra[i]), RA[i]) * cdec > 10 * t or abs(f(dec[i]) - DEC[i]) > 10 * t / cdec:
            raise Violation("xyToradec%s: (%r, %r), reference (%r, %r)" % (p, f(ra[i]), f(dec[i]), RA[i], DEC[i]))
        wj, wr = J.toWorld(JG.PositionD(*p)), R.toWorld(RG.PositionD(*p))
        same_coord("toWorld%s" % (p,), wj, wr, 10 * t / cdec)
        # local linear approximation
        lj, lr = J.local(image_pos=JG.PositionD(*p)), R.local(image_pos=RG.PositionD(*p))
        s = lr.minLinearScale()
        close("local%s" % (p,), np.asarray(lj.getMatrix()), lr.getMatrix(), rtol=0, atol=1e-9 * s / cdec)
        close("pixelArea", f(J.pixelArea(image_pos=JG.PositionD(*p))), R.pixelArea(image_pos=RG.PositionD(*p)),
              rtol=1e-8 / cdec)
        close("min and max linear scale",
              [f(J.minLinearScale(image_pos=JG.PositionD(*p))), f(J.maxLinearScale(image_pos=JG.PositionD(*p)))],
              [R.minLinearScale(image_pos=RG.PositionD(*p)), R.maxLinearScale(image_pos=RG.PositionD(*p))],
              rtol=1e-6)
        # and back
        try:
            ir = R.toImage(wr)
        except Exception:  # noqa: BLE001
            label("reference cannot invert")
            continue
        ij = J.toImage(wj)
        if not (math.isfinite(ir.x) and math.isfinite(ir.y)):
            ir = RG.PositionD(*p)  # (the reference's rounding error at the centre)
        close("toImage%s" % (p,), [f(ij.x), f(ij.y)], [ir.x, ir.y], rtol=0, atol=2e-5)
        if abs(ir.x - p[0]) + abs(ir.y - p[1]) < 1e-6:
            close("toImage(toWorld)%s" % (p,), [f(ij.x), f(ij.y)], p, rtol=0, atol=2e-6)
            done += 1
        xx, yy = J.radecToxy(np.array([f(wj.ra.deg)]), np.array([f(wj.dec.deg)]), units=JG.degrees)
        close("radecToxy", [f(xx[0]), f(yy[0])], [f(ij.x), f(ij.y)], rtol=0, atol=1e-6)
        # project_center
        uv, UV = (W.toWorld(G.PositionD(*p), project_center=G.CelestialCoord(
            R.center.ra.rad * G.radians, R.center.dec.rad * G.radians), projection="stereographic")
            for W, G in ((J, JG), (R, RG)))
        close("toWorld(project_center)", [f(uv.x), f(uv.y)], [UV.x, UV.y], rtol=1e-9, atol=1e-8 * s / cdec)
    return done > 0


# ------------------------------------------------------- other ways to a sky WCS
@st.composite
def tancase(draw):
    k = draw(st.sampled_from([0.05, 0.3, 2.0]))
    d = {"jac": [k * x for x in draw(S.jacobians(1.0, 1.0001, 0.3))],
         "o": [draw(S.fl(-50, 50, 2)), draw(S.fl(-50, 50, 2))],
         "w": [draw(S.fl(-5, 5, 2)), draw(S.fl(-5, 5, 2))] if draw(st.booleans()) else None,
         "c": [draw(S.fl(0, 360, 4)), draw(S.fl(-80, 80, 4))],
         "u": draw(st.sampled_from(["arcsec", "arcmin", "degrees"])),
         "p": [draw(S.fl(-100, 100, 2)), draw(S.fl(-100, 100, 2))],
         "b": [draw(st.integers(-20, 20)), draw(st.integers(-20, 20))], "dt": draw(st.sampled_from(["F", "D"])),
         "sky": draw(st.sampled_from([1.0, 123.5]))}
    if d["u"] != "arcsec":
        k = {"arcmin": 60.0, "degrees": 3600.0}[d["u"]]
        d["jac"] = [x / k for x in d["jac"]]
    return d


def tanwcs(d):
    out = []
    for G in (JG, RG):
        kw = dict(origin=G.PositionD(*d["o"]))
        if d["w"]:
            k = {"arcsec": 1.0, "arcmin": 60.0, "degrees": 3600.0}[d["u"]]
            kw["world_origin"] = G.PositionD(d["w"][0] / k, d["w"][1] / k)
        aff = G.AffineTransform(*d["jac"], **kw)
        w = G.TanWCS(aff, G.CelestialCoord(d["c"][0] * G.degrees, d["c"][1] * G.degrees), units=getattr(G, d["u"]))
        im = G.Image(4, 3, xmin=d["b"][0], ymin=d["b"][1], dtype=S.DTYPES[d["dt"]])
        w.makeSkyImage(im, d["sky"])
        im.wcs = w
        im2 = G.Image(3, 3, xmin=2, ymin=-1, dtype=float)
        im2.wcs = w
        im2.setOrigin(d["b"][0], d["b"][1])
        out.append((G, w, im, im2))
    (_, J, imj, im2j), (_, R, imr, im2r) = out
    if type(J).__name__ != type(R).__name__:
        raise Violation("TanWCS gives %s" % type(J).__name__)
    s = R.minLinearScale(image_pos=RG.PositionD(*d["p"]))
    cdec = math.cos(R.toWorld(RG.PositionD(*d["p"])).dec.rad)
    t = (1e-8 * s / 206265 + 1e-15) / cdec
    same_coord("toWorld", J.toWorld(JG.PositionD(*d["p"])), R.toWorld(RG.PositionD(*d["p"])), t)
    ij = J.toImage(J.toWorld(JG.PositionD(*d["p"])))
    close("toImage(toWorld)", [f(ij.x), f(ij.y)], d["p"], rtol=0, atol=1e-6)
    close("makeSkyImage", np.asarray(imj.array, dtype=float), np.asarray(imr.array, dtype=float),
          rtol=3e-6, atol=1e-4 * s * s * d["sky"])
    same_coord("shifted image's wcs", im2j.wcs.toWorld(JG.PositionD(*d["p"])), im2r.wcs.toWorld(RG.PositionD(*d["p"])), t)
    # FitsWCS reads back what was written
    hdr = {}
    b = RG.BoundsI(1, 10, 1, 10)
    J.writeToFitsHeader(hdr, JG.BoundsI(1, 10, 1, 10))
    hr = {}
    R.writeToFitsHeader(hr, b)
    if set(hdr) != set(hr):
        raise Violation("header keys %s, reference %s" % (sorted(hdr), sorted(hr)))
    for k in hr:
        v, w = hdr[k], hr[k]
        v = v[0] if isinstance(v, tuple) else v
        w = w[0] if isinstance(w, tuple) else w
        if isinstance(w, float):
            close("header " + k, float(v), w, rtol=1e-10, atol=1e-10)
        elif v != w:
            raise Violation("header %s = %r, reference %r" % (k, v, w))
    B = JG.FitsWCS(header=hdr)
    if type(B).__name__ != type(RG.FitsWCS(header=hr)).__name__:
        raise Violation("FitsWCS type %s" % type(B).__name__)
    same_coord("FitsWCS", B.toWorld(JG.PositionD(*d["p"])), R.toWorld(RG.PositionD(*d["p"])), t)
    return True


TESTS = [
    Test("geometry", geocase, geometry, 400, 12000, "not all three points equal"),
    Test("projection", projcase, projection, 320, 10000, "a point away from the projection centre"),
    Test("fitswcs", wcscase, fitswcs, 320, 8000, "a position that maps to the sky and back", cost=3.0),
    Test("tanwcs", tancase, tanwcs, 96, 3000, shards=4, cost=3.0),
]
