"""C08: bounds and positions, as operation sequences run on both libraries."""

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, label
from vlib.specs import JG, RG

iv = st.integers(-12, 12)
fv = st.one_of(st.sampled_from([0.0, 0.5, 1.0, -1.0, 3.0, 7.25]), st.integers(-96, 96).map(lambda n: n / 8.0), iv.map(float))
slot = st.integers(0, 3)


def nums(k, n):
    return st.lists(iv if k == "I" else fv, min_size=n, max_size=n)


@st.composite
def ordered4(draw, k):
    v = draw(nums(k, 4))
    if draw(st.integers(0, 3)):
        v = sorted(v[:2]) + sorted(v[2:])
    return v


@st.composite
def op(draw):
    k = draw(st.sampled_from("ID"))
    o = draw(st.sampled_from(
        ["b4", "b4", "bkw", "bdelta", "bp1", "bp2", "bconv", "bcopy", "b0",
         "p", "pkw", "ptuple", "pconv",
         "and", "and", "add", "add", "addp", "border", "border2", "expand", "expand2", "shift",
         "center", "true_center", "origin", "incb", "incp", "incxy", "eq",
         "neg", "padd", "psub", "pmul", "pdiv", "prmul", "shear", "round"]))
    d = [o, draw(slot), draw(slot), draw(slot)]
    if o in ("b4", "bkw"):
        d += [k, draw(ordered4(k))]
    elif o == "bdelta":
        w = st.integers(1, 9) if k == "I" else st.integers(0, 72).map(lambda n: n / 8.0)
        d += [k, [draw(iv), draw(w), draw(iv), draw(w)]]
    elif o in ("bp1", "bp2", "bconv", "b0", "pconv"):
        d += [k]
    elif o in ("p", "pkw", "ptuple"):
        d += [k, draw(nums(k, 2))]
    elif o in ("border",):
        d += [draw(st.one_of(st.integers(-4, 6), fv))]
    elif o == "border2":
        d += [draw(st.integers(-4, 6)), draw(st.integers(-4, 6))]
    elif o == "expand":
        d += [draw(st.one_of(st.sampled_from([0.5, 1.0, 1.5, 2, 3.0]), st.integers(1, 24).map(lambda n: n / 8.0)))]
    elif o == "expand2":
        d += [draw(st.sampled_from([0.5, 1.0, 1.5, 2.0])), draw(st.sampled_from([0.5, 1.0, 1.5, 2]))]
    elif o == "incxy":
        d += draw(st.lists(fv, min_size=2, max_size=2))
    elif o in ("pmul", "pdiv", "prmul"):
        d += [draw(st.one_of(st.sampled_from([1, 2, 4, -2]), st.sampled_from([-2.0, 0.5, -4.0])))]
    elif o == "shear":
        d += [draw(S.small_shear(0.7))]
    return d


def run_op(G, o, B, P):
    """Apply one operation; ('B', slot, obj), ('P', slot, obj) or ('v', value)."""
    n, i, j, k = o[:4]
    BC = {"I": G.BoundsI, "D": G.BoundsD}
    PC = {"I": G.PositionI, "D": G.PositionD}
    if n == "b4":
        return "B", k, BC[o[4]](*o[5])
    if n == "bkw":
        return "B", k, BC[o[4]](**dict(zip(("xmin", "xmax", "ymin", "ymax"), o[5])))
    if n == "bdelta":
        x, w, y, h = o[5]
        if G is JG:
            return "B", k, BC[o[4]](xmin=x, deltax=w, ymin=y, deltay=h)
        e = 1 if o[4] == "I" else 0
        return "B", k, BC[o[4]](x, x + w - e, y, y + h - e)
    if n == "bp1":
        return "B", k, BC[o[4]](P[i])
    if n == "bp2":
        return "B", k, BC[o[4]](P[i], P[j])
    if n == "bconv":
        return "B", k, BC[o[4]](B[i])
    if n == "bcopy":
        return "B", k, type(B[i])(B[i])
    if n == "b0":
        return "B", k, BC[o[4]]()
    if n == "p":
        return "P", k, PC[o[4]](*o[5])
    if n == "pkw":
        return "P", k, PC[o[4]](x=o[5][0], y=o[5][1])
    if n == "ptuple":
        return "P", k, PC[o[4]](tuple(o[5]))
    if n == "pconv":
        return "P", k, PC[o[4]](P[i])
    if n == "and":
        return "B", k, B[i] & B[j]
    if n == "add":
        return "B", k, B[i] + B[j]
    if n == "addp":
        return "B", k, (B[i] + P[j] if k % 2 else P[j] + B[i])
    if n == "border":
        return "B", k, B[i].withBorder(o[4])
    if n == "border2":
        return "B", k, B[i].withBorder(o[4], o[5])
    if n == "expand":
        return "B", k, B[i].expand(o[4])
    if n == "expand2":
        return "B", k, B[i].expand(o[4], o[5])
    if n == "shift":
        return "B", k, B[i].shift(P[j])
    if n == "center":
        return "P", k, B[i].center
    if n == "true_center":
        return "P", k, B[i].true_center
    if n == "origin":
        return "P", k, B[i].origin
    if n == "incb":
        return "v", B[i].includes(B[j])
    if n == "incp":
        return "v", B[i].includes(P[j])
    if n == "incxy":
        return "v", B[i].includes(o[4], o[5])
    if n == "eq":
        return "v", (B[i] == B[j]) if k % 2 else (P[i] == P[j])
    if n == "neg":
        return "P", k, -P[i]
    if n == "padd":
        return "P", k, P[i] + P[j]
    if n == "psub":
        return "P", k, P[i] - P[j]
    if n == "pmul":
        return "P", k, P[i] * o[4]
    if n == "prmul":
        return "P", k, o[4] * P[i]
    if n == "pdiv":
        return "P", k, P[i] / o[4]
    if n == "shear":
        return "P", k, P[i].shear(G.Shear(g1=o[4][0], g2=o[4][1]))
    if n == "round":
        return "P", k, P[i].round()
    raise ValueError(n)


def same_pos(what, j, r):
    if type(j).__name__ != type(r).__name__:
        raise Violation("%s: class %s, reference %s" % (what, type(j).__name__, type(r).__name__))
    tol = 0 if isinstance(r, RG.PositionI) else 1e-12
    for n in "xy":
        g, w = float(getattr(j, n)), float(getattr(r, n))
        if not abs(g - w) <= tol * (1 + abs(w)):
            raise Violation("%s: %s = %r, reference %r" % (what, n, g, w))


def same_bounds(what, j, r):
    if type(j).__name__ != type(r).__name__:
        raise Violation("%s: class %s, reference %s" % (what, type(j).__name__, type(r).__name__))
    if bool(j.isDefined()) != bool(r.isDefined()):
        raise Violation("%s: isDefined %s, reference %s (%s; %s)"
                        % (what, j.isDefined(), r.isDefined(), j, r))
    tol = 0 if isinstance(r, RG.BoundsI) else 1e-12
    if r.isDefined():
        for n in ("xmin", "xmax", "ymin", "ymax"):
            g, w = float(getattr(j, n)), float(getattr(r, n))
            if not abs(g - w) <= tol * (30 + abs(w)):
                raise Violation("%s: %s = %r, reference %r" % (what, n, g, w))
            m = {"xmin": "getXMin", "xmax": "getXMax", "ymin": "getYMin", "ymax": "getYMax"}[n]
            if float(getattr(j, m)()) != g:
                raise Violation("%s: %s() differs from %s" % (what, m, n))
        if isinstance(r, RG.BoundsI) and tuple(int(v) for v in j.numpyShape()) != r.numpyShape():
            raise Violation("%s: numpyShape %s, reference %s" % (what, j.numpyShape(), r.numpyShape()))
    g, w = float(j.area()), float(r.area())
    if not abs(g - w) <= tol * (1000 + abs(w)):
        raise Violation("%s: area %r, reference %r" % (what, g, w))


def start(G):
    return ([G.BoundsI(), G.BoundsD(), G.BoundsI(1, 8, -2, 5), G.BoundsD(-1.5, 2.0, 0.0, 3.0)],
            [G.PositionI(0, 0), G.PositionD(0.5, -1.0), G.PositionI(3, -2), G.PositionD(2.0, 2.0)])


def unjudged(o, B):
    """Operations on an undefined Bounds whose numbers carry no meaning: GalSim
    computes on with its zeros and, by accident, gets a defined Bounds."""
    return o[0] in ("bconv", "bcopy", "border", "border2", "expand", "expand2", "shift") \
        and not B[o[1]].isDefined()


def history(case):
    BJ, PJ = start(JG)
    BR, PR = start(RG)
    live = 0
    for t, o in enumerate(case):
        what = "step %d %s" % (t, o)
        if unjudged(o, BR):
            label("on undefined")
            continue
        try:
            r = run_op(RG, o, BR, PR)
        except Exception as e:  # noqa: BLE001
            try:
                j = run_op(JG, o, BJ, PJ)
            except Exception:  # noqa: BLE001
                label("refused")
                continue
            raise Violation("%s: accepted (%s), reference raises %r" % (what, j[-1], e))
        j = run_op(JG, o, BJ, PJ)
        if r[0] == "v":
            if bool(j[1]) != bool(r[1]):
                raise Violation("%s: %s, reference %s" % (what, j[1], r[1]))
            live += 1
        elif r[0] == "B":
            if isinstance(r[2], RG.BoundsD) and not r[2].isDefined() and j[2].isDefined() and not (
                    isinstance(j[2].deltax, float) and isinstance(j[2].deltay, float)):
                # documented: bounds held as JAX values are not always tested for validity
                if not (j[2].deltax < 0 or j[2].deltay < 0):
                    raise Violation("%s: %s, reference undefined" % (what, j[2]))
                label("unchecked array bounds")
                BJ[r[1]], BR[r[1]] = JG.BoundsD(), RG.BoundsD()
                continue
            same_bounds(what, j[2], r[2])
            BJ[r[1]], BR[r[1]] = j[2], r[2]
            live += bool(r[2].isDefined())
        else:
            same_pos(what, j[2], r[2])
            if o[0] != "shear":  # keeps all coordinates exact binary fractions
                PJ[r[1]], PR[r[1]] = j[2], r[2]
            live += 1
    # nothing above may have changed an operand in place
    for n in range(4):
        same_bounds("slot %d at the end" % n, BJ[n], BR[n])
        same_pos("slot %d at the end" % n, PJ[n], PR[n])
    return live >= 4


# -------------------------------------------------------------------- lattice
@st.composite
def three(draw):
    k = draw(st.sampled_from("ID"))
    return [k, [draw(ordered4(k)) if draw(st.integers(0, 5)) else None for _ in range(3)],
            draw(nums(k, 2))]


def lattice(case):
    k, vs, pv = case
    C = JG.BoundsI if k == "I" else JG.BoundsD
    a, b, c = [C() if v is None else C(*v) for v in vs]
    p = (JG.PositionI if k == "I" else JG.PositionD)(*pv)
    ndef = 0

    def eq(what, x, y):
        if not (x == y) or (x != y):
            raise Violation("%s fails for %s, %s, %s: %s vs %s" % (what, a, b, c, x, y))

    eq("a & b == b & a", a & b, b & a)
    eq("(a & b) & c == a & (b & c)", (a & b) & c, a & (b & c))
    eq("a & a == a", a & a, a)
    eq("a + b == b + a", a + b, b + a)
    eq("(a + b) + c == a + (b + c)", (a + b) + c, a + (b + c))
    eq("a + a == a", a + a, a)
    for x in (a, b):
        if x.isDefined():
            ndef += 1
            eq("absorption a & (a + b)", x & (a + b), x)
            if not (a + b).includes(x):
                raise Violation("a + b does not include its part: %s + %s" % (a, b))
            if (a & b).isDefined() and not x.includes(a & b):
                raise Violation("a & b not inside %s" % x)
            if not (x + p).includes(p):
                raise Violation("%s + %s does not include the point" % (x, p))
    if k == "D":  # sums of floats may round
        pass
    inter = a & b
    if inter.isDefined():
        eq("absorption a + (a & b)", a + inter, a)
    both = bool(a.includes(p)) and bool(b.includes(p))
    if bool(inter.includes(p)) != both:
        raise Violation("point %s: in a & b %s, in both %s (%s, %s)"
                        % (p, bool(inter.includes(p)), both, a, b))
    for x in (a, b):
        if x.isDefined():
            s = x.shift(p).shift(-p)
            if k == "I":
                eq("shift back", s, x)
                eq("hash of equal bounds", hash(s), hash(C(*[int(v) for v in (x.xmin, x.xmax, x.ymin, x.ymax)])))
    return ndef == 2


# --------------------------------------------------------------------- traced
@st.composite
def tracedcase(draw):
    k = draw(st.sampled_from("ID"))
    v = draw(ordered4(k))
    v = sorted(v[:2]) + sorted(v[2:])
    return [k, v, draw(nums(k, 2)), draw(st.integers(0, 4)), draw(st.sampled_from([1.0, 1.5, 2.0, 3.0])),
            draw(nums("I" if k == "I" else "D", 4))]


_jit = {}


def traced(case):
    import jax

    k, v, pv, dx, fac, w = case
    w = sorted(w[:2]) + sorted(w[2:])
    C = JG.BoundsI if k == "I" else JG.BoundsD
    PC = JG.PositionI if k == "I" else JG.PositionD
    e = 1 if k == "I" else 0
    wx, wy = v[1] - v[0] + e, v[3] - v[2] + e
    if k == "I":
        wx, wy = min(wx, 5), min(wy, 4)  # static sizes: few compilations

    def probe(b, p, q):
        out = dict(
            area=b.area(), cx=b.center.x, cy=b.center.y, tx=b.true_center.x, ty=b.true_center.y,
            ox=b.origin.x, oy=b.origin.y, x1=b.xmin, x2=b.xmax, y1=b.ymin, y2=b.ymax,
            inc=b.includes(p),
        )
        for n, o in (("border", b.withBorder(3)), ("shift", b.shift(p))) + (
            () if k == "I" else (("expand", b.expand(1.5)), ("sum", b + q), ("sump", b + p))
        ):
            out.update({n + "x1": o.xmin, n + "x2": o.xmax, n + "y1": o.ymin, n + "y2": o.ymax})
        out["incb"] = q.includes(b)
        return out

    def fn(x, y, dxy, px, py, qq):
        ww = (wx, wy) if k == "I" else dxy
        b = C(xmin=x, deltax=ww[0], ymin=y, deltay=ww[1])
        if k == "I":
            q = C(xmin=qq[0], deltax=7, ymin=qq[2], deltay=7)
        else:
            q = C(xmin=qq[0], deltax=qq[1], ymin=qq[2], deltay=qq[3])
        return probe(b, PC(px, py), q)

    key = (k, wx, wy) if k == "I" else k
    if key not in _jit:
        _jit[key] = jax.jit(fn)
    t = int if k == "I" else float
    qq = [t(w[0]), t(w[1] - w[0]), t(w[2]), t(w[3] - w[2])]
    args = (t(v[0]), t(v[2]), (float(wx), float(wy)), t(pv[0]), t(pv[1]), qq)
    got = _jit[key](*args)
    # reference: concrete
    b = (RG.BoundsI if k == "I" else RG.BoundsD)(v[0], v[0] + wx - e, v[2], v[2] + wy - e)
    rp = (RG.PositionI if k == "I" else RG.PositionD)(*pv)
    if k == "I":
        q = RG.BoundsI(w[0], w[0] + 6, w[2], w[2] + 6)
    else:
        q = RG.BoundsD(w[0], w[1], w[2], w[3])
    want = probe(b, rp, q)
    for n in want:
        g, r = float(got[n]), float(want[n])
        if not abs(g - r) <= 1e-12 * (30 + abs(r)):
            if n in ("incb", "inc") and k == "D":
                continue  # xmax is rebuilt from xmin + delta, equality may round
            raise Violation("traced %s: got %r, reference %r" % (n, g, r))
    # vmap over positions of the corner
    label("traced " + k)
    return True


TESTS = [
    Test("history", lambda: st.lists(op(), min_size=6, max_size=25), history, 1200, 40000,
         "at least four operations whose result is defined"),
    Test("lattice", three, lattice, 600, 20000, "two of the bounds are defined", shards=4),
    Test("traced", tracedcase, traced, 320, 8000, shards=2),
]
