"""C09: angles and shears."""

import re

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, label
from vlib.specs import JG, RG

UNITS = ("radians", "degrees", "hours", "arcmin", "arcsec")
vals = st.one_of(
    S.fl(-400.0, 400.0), S.fl(-7, 7), S.fl(-1e-6, 1e-6, 15), S.fl(-1e7, 1e7, 3),
    st.sampled_from([0.0, 1.0, -1.0, 12.0, 24.0, 90.0, -90.0, 180.0, -180.0, 360.0, 59.999999999]),
)
unit = st.sampled_from(UNITS)


@st.composite
def aop(draw):
    o = draw(st.sampled_from(["neg", "pos", "abs", "add", "sub", "mul", "rmul", "div", "wrap", "wrapc", "copy"]))
    d = [o]
    if o in ("add", "sub", "wrapc"):
        d += [draw(vals), draw(unit)]
    elif o in ("mul", "rmul", "div"):
        d += [draw(S.signed(0.1, 20.0))]
    return d


def acases():
    return st.fixed_dictionaries(dict(
        v=vals, u=unit, w=vals, w_u=unit, ops=st.lists(aop(), max_size=5),
        custom=st.one_of(st.none(), S.fl(0.01, 3.0, 4)), form=st.integers(0, 2)))


def U(G, name):
    return getattr(G, name)


def A(G, v, u, form=0):
    return G.Angle(v, U(G, u)) if form == 0 else v * U(G, u)


def apply(G, a, o):
    k = o[0]
    if k == "neg":
        return -a
    if k == "pos":
        return +a
    if k == "abs":
        return abs(a)
    if k == "add":
        return a + A(G, o[1], o[2])
    if k == "sub":
        return a - A(G, o[1], o[2])
    if k == "mul":
        return a * o[1]
    if k == "rmul":
        return o[1] * a
    if k == "div":
        return a / o[1]
    if k == "wrap":
        return a.wrap()
    if k == "wrapc":
        return a.wrap(A(G, o[1], o[2]))
    if k == "copy":
        return G.Angle(a)
    raise ValueError(k)


def near(what, g, w, atol, rtol=1e-13):
    g, w = float(g), float(w)
    if not abs(g - w) <= atol + rtol * abs(w):
        raise Violation("%s: got %r, reference %r" % (what, g, w))


def angle(case):
    j, r = A(JG, case["v"], case["u"], case["form"]), A(RG, case["v"], case["u"], case["form"])
    near("rad", j.rad, r.rad, 0)
    mag = abs(r.rad)
    for o in case["ops"]:
        before = float(j.rad)
        jn, rn = apply(JG, j, o), apply(RG, r, o)
        if float(j.rad) != before:
            raise Violation("%s changed its operand" % o)
        if o[0] in ("add", "sub"):
            mag = mag + abs(A(RG, o[1], o[2]).rad)
        elif o[0] in ("mul", "rmul"):
            mag *= max(1.0, abs(o[1]))
        elif o[0] == "div":
            mag /= min(1.0, abs(o[1]))
        tol = 1e-14 * (1 + mag)
        if o[0].startswith("wrap"):
            c = 0.0 if o[0] == "wrap" else A(RG, o[1], o[2]).rad
            tol += 1e-14 * abs(c)
            d = float(jn.rad) - c
            if not -np.pi - tol <= d <= np.pi + tol:
                raise Violation("%s of %r rad: %r is not within pi of %r" % (o, before, float(jn.rad), c))
            k = (float(jn.rad) - before) / (2 * np.pi)
            near("whole turns", k, round(k), 1e-13 * (1 + mag + abs(c)))
            if abs(float(jn.rad) - rn.rad) > 2 * tol:
                # the branch point itself may go either way
                if abs(abs(d) - np.pi) > 10 * tol:
                    raise Violation("%s of %r rad: %r, reference %r" % (o, before, float(jn.rad), rn.rad))
                raise Inconclusive("wrap at the branch point")
            mag = max(mag, abs(c))
        else:
            near("after %s" % o, jn.rad, rn.rad, tol)
        j, r = jn, rn
    tol = 1e-14 * (1 + mag)
    near("deg", j.deg, r.deg, 60 * tol)
    for u in UNITS:
        f = 1 / U(RG, u).value
        near("/ " + u, j / U(JG, u), r / U(RG, u), 2 * tol * f)
        near("unit value", U(JG, u).value, U(RG, u).value, 0)
        near("unit ratio", U(JG, u) / U(JG, case["u"]), U(RG, u) / U(RG, case["u"]), 0)
        n = JG.AngleUnit.from_name(u)
        if not n == U(JG, u):
            raise Violation("unit from_name(%r) is %r" % (u, n))
    if case["custom"]:
        cu, ru = JG.AngleUnit(case["custom"]), RG.AngleUnit(case["custom"])
        near("custom unit", (case["v"] * cu).rad, (case["v"] * ru).rad, 0)
        near("/ custom unit", j / cu, r / ru, 200 * tol)
    if abs(r.rad) < 1e5:
        t2 = 4 * tol
        near("sin", j.sin(), r.sin(), t2)
        near("cos", j.cos(), r.cos(), t2)
        s, c = j.sincos()
        near("sincos[0]", s, r.sincos()[0], t2)
        near("sincos[1]", c, r.sincos()[1], t2)
        if abs(r.cos()) > 1e-3:
            near("tan", j.tan(), r.tan(), 2 * t2 / r.cos() ** 2)
    w, x = A(JG, case["w"], case["w_u"]), A(RG, case["w"], case["w_u"])
    if abs(r.rad - x.rad) > 4 * tol + 1e-13 * abs(x.rad):
        for n, op in (("<", "__lt__"), ("<=", "__le__"), (">", "__gt__"), (">=", "__ge__")):
            if bool(getattr(j, op)(w)) != bool(getattr(r, op)(x)):
                raise Violation("%r %s %r is %s" % (j, n, w, bool(getattr(j, op)(w))))
        if j == w or not (j != w):
            raise Violation("%r == %r" % (j, w))
    if not (j == JG.Angle(j)) or hash(j) != hash(JG.Angle(j)):
        raise Violation("an angle differs from its copy")
    return len(case["ops"]) > 0


# ------------------------------------------------------------------ sexagesimal
def scases():
    return st.fixed_dictionaries(dict(
        h=st.integers(0, 400), m=st.sampled_from([0, 1, 9, 10, 30, 59]),
        s=st.one_of(st.sampled_from([0.0, 59.99, 59.9999999, 59.999999999, 0.5, 9.0, 10.0]), S.fl(0, 59.999, 9)),
        neg=st.booleans(), kind=st.sampled_from(["hms", "dms"]),
        sep=st.sampled_from([":", " ", "hms", "dms", "", ["d", "m"], "::"]),
        prec=st.sampled_from([None, None, 0, 1, 2, 4, 8]), pad=st.booleans(), plus=st.booleans(),
        text=st.sampled_from(["colon", "space", "letters", "short", "shorter", "plus"])))


def sexagesimal(case):
    deg = case["h"] + case["m"] / 60 + case["s"] / 3600
    if case["neg"]:
        deg = -deg
    u = "hours" if case["kind"] == "hms" else "degrees"
    j, r = deg * U(JG, u), deg * U(RG, u)
    kw = dict(sep=case["sep"], prec=case["prec"], pad=case["pad"], plus_sign=case["plus"])
    if isinstance(kw["sep"], list):
        kw["sep"] = tuple(kw["sep"])
    got, want = getattr(j, case["kind"])(**kw), getattr(r, case["kind"])(**kw)
    if got != want:
        # the last digit may round the other way: compare as text with that digit free
        def num(s):
            t = [float(x) for x in re.findall(r"[\d.]+", s)]
            return sum(x / 60**i for i, x in enumerate(t)) * 3600

        shape = lambda s: re.sub(r"[\d.]+", "9", s)  # noqa: E731
        unit_ = 10.0 ** -(8 if case["prec"] is None else case["prec"])
        if kw["sep"] == "" or shape(got) != shape(want) or abs(num(got) - num(want)) > 1.01 * unit_:
            raise Violation("%s(%s) of %r: %r, reference %r" % (case["kind"], kw, deg, got, want))
        label("last digit")
    # default text reads back to within its precision
    back = getattr(JG.Angle, "from_" + case["kind"])(getattr(j, case["kind"])())
    near("read back", back / U(JG, u), deg, 1e-8 / 3600 + 1e-12 * abs(deg), 0)
    # reading text
    h, m, s = case["h"], case["m"], repr(case["s"])
    sg = "-" if case["neg"] else ("+" if case["text"] == "plus" else "")
    t = {"colon": "%s%d:%02d:%s", "space": "%s%02d %d %s", "letters": "%s%dh%02dm%ss",
         "plus": "%s%d:%02d:%s"}.get(case["text"])
    if "e" in s:
        s = "0"
    if t:
        t = t % (sg, h, m, s)
    elif case["text"] == "short":
        t = "%s%d:%02d.5:" % (sg, h, m)
    else:
        t = "%s%d.25d" % (sg, h)
    from vlib.core import raises

    f = "from_" + case["kind"]
    e = raises(lambda: getattr(RG.Angle, f)(t))
    if e is not None:
        if raises(lambda: getattr(JG.Angle, f)(t)) is None:
            raise Violation("%s(%r) accepted, reference raises %r" % (f, t, e))
    else:
        near("%s(%r)" % (f, t), getattr(JG.Angle, f)(t).rad, getattr(RG.Angle, f)(t).rad, 0)
    return True


# ----------------------------------------------------------------------- shears
@st.composite
def gvals(draw):
    g = draw(st.one_of(S.fl(0, 0.7, 5), S.fl(0.7, 0.999, 6), S.fl(-12, -1.0, 3).map(lambda e: 10.0**e),
                       st.sampled_from([0.0, 1e-4, 0.99e-4, 1.01e-4, 1e-2, 0.5])))
    return [g, draw(st.one_of(S.fl(-3.2, 3.2, 4), st.sampled_from([0.0, np.pi / 4, np.pi / 2, -np.pi / 2, np.pi])))]


PARAMS = ("g1g2", "e1e2", "eta1eta2", "gbeta", "ebeta", "etabeta", "qbeta", "complex", "g1", "e2", "eta1")


def mkshear(G, par, gb):
    g, b = gb
    e, eta, q = 2 * g / (1 + g * g), 2 * np.arctanh(g), (1 - g) / (1 + g)
    c, s = np.cos(2 * b), np.sin(2 * b)
    beta = b * G.radians
    if par == "g1g2":
        return G.Shear(g1=g * c, g2=g * s)
    if par == "e1e2":
        return G.Shear(e1=e * c, e2=e * s)
    if par == "eta1eta2":
        return G.Shear(eta1=eta * c, eta2=eta * s)
    if par == "gbeta":
        return G.Shear(g=g, beta=beta)
    if par == "ebeta":
        return G.Shear(e=e, beta=beta)
    if par == "etabeta":
        return G.Shear(eta=eta, beta=beta)
    if par == "qbeta":
        return G.Shear(q=q, beta=beta)
    if par == "g1":
        return G.Shear(g1=g)
    if par == "e2":
        return G.Shear(e2=e)
    if par == "eta1":
        return G.Shear(eta1=-eta)
    return G.Shear(complex(g * c, g * s))


def same_shear(what, j, r, tol=2e-13):
    cond = 1 / (1 - r.g)  # eta and compositions are ill-conditioned near g = 1
    for n in ("g1", "g2", "g", "e1", "e2", "e", "esq", "eta1", "eta2", "eta", "q"):
        near("%s: %s" % (what, n), getattr(j, n), getattr(r, n), tol * cond, 1e-12 * cond)
    if abs(complex(j.shear) - r.shear) > tol * cond:
        raise Violation("%s: shear %r, reference %r" % (what, j.shear, r.shear))
    if r.g > 1e-10:
        d = float(j.beta.rad) - r.beta.rad
        d -= np.pi * round(d / np.pi)
        if abs(d) > tol * cond / r.g + 1e-13:
            raise Violation("%s: beta %r, reference %r" % (what, j.beta, r.beta))
    close("%s: matrix" % what, np.asarray(j.getMatrix()), r.getMatrix(), 1e-12 * cond, tol * cond)


@st.composite
def shcases(draw):
    return dict(a=draw(gvals()), pa=draw(st.sampled_from(PARAMS)),
                b=draw(gvals()), pb=draw(st.sampled_from(PARAMS)),
                ops=draw(st.lists(st.sampled_from(["neg", "add", "sub", "radd", "self"]), max_size=5)))


def shear(case):
    ja, ra = mkshear(JG, case["pa"], case["a"]), mkshear(RG, case["pa"], case["a"])
    jb, rb = mkshear(JG, case["pb"], case["b"]), mkshear(RG, case["pb"], case["b"])
    same_shear("a", ja, ra)
    same_shear("b", jb, rb)
    # matrix algebra: M(a) M(b) = M(a + b) R(rotation)
    Ma, Mb = np.asarray(ja.getMatrix()), np.asarray(jb.getMatrix())
    cond = 1 / (1 - ra.g) / (1 - rb.g)
    near("det", np.linalg.det(Ma), 1.0, 1e-13 * cond**2)
    s = ja + jb
    if float(s.g) < 1 - 1e-6:
        th = float(ja.rotationWith(jb).rad)
        # rotationWith is defined by getMatrix(self).dot(getMatrix(other)) = getMatrix(self+other).R
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        c2 = 1 / (1 - float(s.g)) * cond
        close("composition", np.asarray(s.getMatrix()) @ R, Ma @ Mb, 0, 1e-12 * c2)
        near("rotationWith", th, ra.rotationWith(rb).rad, 1e-12 * cond)
    inv = ja + (-ja)
    if float(inv.g) > 1e-13 * cond:
        raise Violation("a + (-a) has g = %r" % float(inv.g))
    j, r = ja, ra
    for o in case["ops"]:
        if o == "neg":
            j, r = -j, -r
        elif o == "add":
            j, r = j + jb, r + rb
        elif o == "sub":
            j, r = j - jb, r - rb
        elif o == "radd":
            j, r = jb + j, rb + r
        else:
            j, r = j + ja, r + ra
        if r.g > 1 - 1e-5:
            raise Inconclusive("|g| rounds to 1")
        cond = max(cond, cond / (1 - r.g))
        same_shear("after %s" % o, j, r, 1e-12 * min(cond, 1e4))
    for x in (ja, jb, j):
        if not (x == JG._Shear(complex(x.shear))) or (x != JG._Shear(complex(x.shear))):
            raise Violation("a shear differs from its copy %r" % x)
    if abs(ra.shear - rb.shear) > 1e-12 and ja == jb:
        raise Violation("%r == %r" % (ja, jb))
    label(case["pa"])
    return case["a"][0] > 0


TESTS = [
    Test("angle", acases, angle, 2400, 20000, "at least one operation on the angle"),
    Test("sexagesimal", scases, sexagesimal, 2000, 20000, shards=4),
    Test("shear", shcases, shear, 1200, 20000, "the first shear is not zero"),
]
