"""C05: JAX transformations do not change results.

A template makes an object from a few real parameters and computes observables
from it and a few real arguments.  For generated parameters the observables
computed eagerly are compared with those computed after each JAX boundary:
flatten/unflatten, an identity jit, the object as a jit argument, the object
built inside jit from traced parameters, and the last two vectorised over
three parameter sets.
"""

import json
import zlib

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, label
from vlib.specs import JG

G = JG
T = {}


class Template:
    def __init__(self, group, name, n, make, obs, routes=None, eq=True, rtol=1e-9):
        self.group, self.name, self.n, self.make, self.obs = group, name, n, make, obs
        self.routes, self.eq, self.rtol = routes or ROUTES, eq, rtol
        self.jit = {}


def add(group, name, n, make, obs, **kw):
    T[name] = Template(group, name, n, make, obs, **kw)


NQ = 4
ROUTES = ["flatten", "ident", "arg", "inside", "build", "vinside", "varg"]
# random numbers: seeds are concrete by documentation
CONCRETE = ["flatten", "ident", "arg", "varg"]


def lin(t, lo, hi):
    return lo + (hi - lo) * 0.5 * (1.0 + t)


# -------------------------------------------------------------- observables
def o_prof(*attrs, x=True, k=True, sizes=True):
    def obs(o, q):
        d = dict(flux=o.flux, cx=o.centroid.x, cy=o.centroid.y)
        if x:
            d["x"] = o.xValue(G.PositionD(2 * q[0], 2 * q[1]))
            d["x2"] = o.xValue(0.3 * q[2], 4 * q[3])
            d["max_sb"] = o.max_sb
        if k:
            d["k"] = o.kValue(G.PositionD(2 * q[0], 2 * q[1]))
            d["k2"] = o.kValue(0.3 * q[2], 5 * q[3])
        if sizes:
            d["maxk"], d["stepk"], d["nyq"] = o.maxk, o.stepk, o.nyquist_scale
            d["good"] = o.getGoodImageSize(0.3)
        d["pos"], d["neg"] = o.positive_flux, o.negative_flux
        for a in attrs:
            d[a] = getattr(o, a)
        d["gsparams"] = settings(o)
        return d

    return obs


def settings(o):
    """The accuracy settings of an object and of its components."""
    g = o.gsparams
    out = [float(getattr(g, n)) for n in S.GSP_FIELDS]
    for k in getattr(o, "obj_list", []) or [x for x in (getattr(o, n, None) for n in ("orig_obj", "original")) if x is not None and x is not o]:
        out += settings(k)
    return out


def prof(name, n, make, *attrs, **kw):
    okw = {k: kw.pop(k) for k in ("x", "k", "sizes") if k in kw}
    add(kw.pop("group", "profiles"), name, n, make, o_prof(*attrs, **okw), **kw)


def F(t):
    return lin(t, 0.5, 9.0)


def Z(t):
    return lin(t, 0.4, 2.5)


for a in ("sigma", "half_light_radius", "fwhm"):
    prof("Gaussian/" + a, 2, lambda p, a=a: G.Gaussian(flux=F(p[0]), **{a: Z(p[1])}),
         "sigma", "half_light_radius", "fwhm")
for a in ("scale_radius", "half_light_radius"):
    prof("Exponential/" + a, 2, lambda p, a=a: G.Exponential(flux=F(p[0]), **{a: Z(p[1])}),
         "scale_radius", "half_light_radius")
for a in ("scale_radius", "half_light_radius", "fwhm"):
    prof("Moffat/" + a, 3, lambda p, a=a: G.Moffat(beta=lin(p[2], 1.8, 5.5), flux=F(p[0]), **{a: Z(p[1])}),
         "scale_radius", "half_light_radius", "fwhm", "beta")
for a in ("scale_radius", "half_light_radius"):
    prof("Spergel/" + a, 3, lambda p, a=a: G.Spergel(nu=lin(p[2], -0.55, 3.5), flux=F(p[0]), **{a: Z(p[1])}),
         "scale_radius", "half_light_radius", "nu", rtol=1e-7)
prof("Box", 3, lambda p: G.Box(width=Z(p[1]), height=Z(p[2]), flux=F(p[0])), "width", "height")
prof("Pixel", 2, lambda p: G.Pixel(scale=Z(p[1]), flux=F(p[0])), "scale")
prof("Delta", 1, lambda p: G.DeltaFunction(flux=F(p[0])), x=False, sizes=False)


def gal(p):
    return G.Gaussian(flux=F(p[0]), sigma=Z(p[1]))


def exp_(p):
    return G.Exponential(flux=F(p[0]), half_light_radius=Z(p[1]))


def cp(name, n, make, *a, **k):
    prof(name, n, make, *a, group="composites", **k)


cp("Sum", 4, lambda p: gal(p[:2]) + exp_(p[2:]))
cp("Sum3", 6, lambda p: G.Sum([gal(p[:2]), exp_(p[2:4]) * -0.3, gal(p[4:]).shift(0.2, 0.1)]))
cp("Convolve", 4, lambda p: G.Convolve([exp_(p[:2]), gal(p[2:])]), x=False)
cp("Convolve3", 6, lambda p: G.Convolve(exp_(p[:2]), gal(p[2:4]), G.Pixel(0.2, flux=F(p[4]))), x=False)
cp("Deconvolve", 2, lambda p: G.Deconvolve(gal(p)), x=False)
cp("ConvDeconv", 4, lambda p: G.Convolve([exp_(p[:2]), G.Deconvolve(gal(p[2:]).dilate(0.3))]), x=False)
cp("shear", 4, lambda p: exp_(p).shear(g1=0.5 * p[2], g2=0.5 * p[3]))
cp("shear_obj", 4, lambda p: exp_(p).shear(G.Shear(e1=0.5 * p[2], e2=0.5 * p[3])))
cp("shear_qbeta", 4, lambda p: exp_(p).shear(q=lin(p[2], 0.2, 1.0), beta=p[3] * G.radians))
cp("rotate", 4, lambda p: exp_(p).shear(g1=0.3 * p[3], g2=0.1).rotate(3 * p[2] * G.radians))
cp("dilate", 3, lambda p: exp_(p).dilate(lin(p[2], 0.5, 2)))
cp("magnify", 3, lambda p: exp_(p).magnify(lin(p[2], 0.5, 2)))
cp("lens", 5, lambda p: exp_(p).lens(0.3 * p[2], 0.3 * p[3], lin(p[4], 0.5, 2)))
cp("shift", 4, lambda p: exp_(p).shift(p[2], 2 * p[3]))
cp("transform", 6, lambda p: exp_(p).transform(1 + 0.2 * p[2], 0.3 * p[3], 0.3 * p[4], 1 + 0.2 * p[5]))
cp("flux ops", 4, lambda p: ((exp_(p) * lin(p[2], 0.3, 2)) / lin(p[3], 0.5, 2)).withFlux(F(p[2])))
cp("chain", 6, lambda p: exp_(p).shear(g1=0.4 * p[2], g2=0.1).shift(p[3], 0.3).dilate(lin(p[4], 0.5, 2))
   .rotate(p[5] * G.radians).withScaledFlux(2.0))
GSP = dict(maxk_threshold=1e-4, folding_threshold=2e-3)
OTHER = dict(maxk_threshold=2e-3, kvalue_accuracy=1e-4, shoot_accuracy=1e-4)
for pg in (True, False):
    kw = lambda pg=pg: dict(gsparams=G.GSParams(**OTHER), propagate_gsparams=pg)  # noqa: E731
    cp("gsparams/Sum/%s" % pg, 4, lambda p, kw=kw: G.Sum([gal(p[:2]), exp_(p[2:]).withGSParams(**GSP)], **kw()))
    cp("gsparams/Convolve/%s" % pg, 4, lambda p, kw=kw: G.Convolve([gal(p[:2]), exp_(p[2:]).withGSParams(**GSP)], **kw()), x=False)
    cp("gsparams/Deconvolve/%s" % pg, 2, lambda p, kw=kw: G.Deconvolve(gal(p).withGSParams(**GSP), **kw()), x=False)
    cp("gsparams/Transform/%s" % pg, 4, lambda p, kw=kw: G.Transform(
        gal(p).withGSParams(**GSP), [1.1, 0.2 * p[2], 0.1, 0.9], (0.1, p[3]), 1.5, **kw()))
cp("gsparams", 2, lambda p: exp_(p).withGSParams(maxk_threshold=1e-4, folding_threshold=2e-3))


# generated structures whose numbers are scaled by the parameters
def subst(s, it, keep=("gsp", "topgsp", "propagate")):
    """Replace every real number of a spec by a 20% variation of itself."""
    if isinstance(s, dict):
        return {k: (v if k in keep else
                    v * (0.9 + 0.1 * next(it)) if k == "q" else subst(v, it, keep)) for k, v in s.items()}
    if isinstance(s, list):
        return [subst(v, it, keep) for v in s]
    if isinstance(s, float):
        return s * (1.0 + 0.1 * next(it))
    return s


def pool_make(spec, *keep):
    def make(p):
        def it():
            i = 0
            while True:
                yield p[i % len(p)]
                i += 1

        return S.build(subst(spec, it(), ("gsp", "topgsp", "propagate") + keep), G)

    return make


POOL = {}


def pool_template(spec):
    k = json.dumps(spec, sort_keys=True)
    if k not in POOL:
        POOL[k] = Template("pool", "structure", 5, pool_make(spec), o_prof(x=not S.has(spec, "conv")), rtol=1e-7)
    return POOL[k]


# ------------------------------------------------------------------ values
def pos(p):
    return [p.x, p.y]


def o_pos(o, q):
    u = G.PositionD(q[0], q[1])
    return dict(add=pos(o + u), sub=pos(o - u), mul=pos(o * 2.5), neg=pos(-o), rmul=pos(2.5 * o), div=pos(o / 1.5),
                sh=pos(o.shear(G.Shear(g1=0.2 * q[2], g2=0.1 * q[3]))), rnd=pos(G.PositionD(9 * o.x, 9 * o.y).round()))


add("values", "PositionD", 2, lambda p: G.PositionD(5 * p[0], 5 * p[1]), o_pos)
add("values", "PositionI", 2,
    lambda p: G.PositionI(jnp.floor(20 * jnp.asarray(p[0])).astype(int), jnp.floor(20 * jnp.asarray(p[1])).astype(int)),
    lambda o, q: dict(add=pos(o + G.PositionI(1, 2)), sub=pos(o - G.PositionI(1, 2)), neg=pos(-o), mul=pos(o * 2),
                      mix=pos(o + G.PositionD(q[0], q[1]))))


def o_angle(o, q):
    b = q[0] * G.degrees
    return dict(rad=o.rad, deg=o.deg, s=o.sin(), c=o.cos(), t=o.tan(), sc=list(o.sincos()), hr=o / G.hours,
                add=(o + b).rad, sub=(o - b).rad, mul=(o * q[1]).rad, div=(o / 1.7).rad, neg=(-o).rad, ab=abs(o).rad,
                wrap=(o * 20).wrap().rad, wrapc=(o * 20).wrap(q[2] * G.radians).rad, lt=o < b, ge=o >= b)


add("values", "Angle", 1, lambda p: G.Angle(3 * p[0], G.radians), o_angle)
add("values", "Angle/unit", 2, lambda p: 30 * p[0] * G.AngleUnit(lin(p[1], 0.1, 1)), o_angle)
add("values", "AngleUnit", 1, lambda p: G.AngleUnit(lin(p[0], 0.1, 1)),
    lambda o, q: dict(v=o.value, r=o / G.degrees, a=(q[0] * o).rad))


def o_shear(o, q):
    s = G.Shear(g1=0.5 * q[0], g2=0.5 * q[1])
    d = {n: getattr(o, n) for n in ("g1", "g2", "g", "e1", "e2", "e", "esq", "eta1", "eta2", "eta", "q", "shear")}
    d.update(beta=o.beta.rad, m=o.getMatrix(), add=(o + s).shear, sub=(o - s).shear, neg=(-o).shear,
             rot=o.rotationWith(s).rad)
    return d


for n, f in dict(
    g=lambda a, b: dict(g1=0.6 * a, g2=0.6 * b), e=lambda a, b: dict(e1=0.6 * a, e2=0.6 * b),
    eta=lambda a, b: dict(eta1=2 * a, eta2=2 * b), gb=lambda a, b: dict(g=lin(a, 0.01, 0.9), beta=3 * b * G.radians),
    eb=lambda a, b: dict(e=lin(a, 0.01, 0.9), beta=3 * b * G.radians),
    etab=lambda a, b: dict(eta=lin(a, 0.01, 3), beta=3 * b * G.radians),
    qb=lambda a, b: dict(q=lin(a, 0.1, 0.99), beta=3 * b * G.radians),
).items():
    add("values", "Shear/" + n, 2, lambda p, f=f: G.Shear(**f(p[0], p[1])), o_shear)


def coordv(c):
    return [c.ra.rad, c.dec.rad]


def CC(a, b):
    return G.CelestialCoord(3 * a * G.radians, 1.3 * b * G.radians)


def o_coord(o, q):
    a, b = CC(q[0], q[1]), CC(q[2], q[3])
    near = G.CelestialCoord(o.ra + 0.1 * q[0] * G.radians, o.dec * 0.9 + 0.05 * q[1] * G.radians)
    d = dict(c=coordv(o), xyz=list(o.get_xyz()), dist=o.distanceTo(a).rad, ang=o.angleBetween(a, b).rad,
             area=o.area(a, b), gc=coordv(o.greatCirclePoint(a, 0.3 * G.radians)), gal=[x.rad for x in o.galactic()],
             ecl=[x.rad for x in o.ecliptic()], prec=coordv(o.precess(2000, 1980)), nrm=coordv(o.normal()))
    for pr in ("gnomonic", "stereographic", "lambert", "postel"):
        u, v = o.project(near, projection=pr)
        d[pr] = [u.rad, v.rad]
        d["de" + pr] = coordv(o.deproject(0.1 * q[2] * G.radians, 0.1 * q[3] * G.radians, projection=pr))
        d["j" + pr] = o.jac_deproject(0.1 * q[2] * G.radians, 0.1 * q[3] * G.radians, projection=pr)
    return d


add("sky", "CelestialCoord", 2, lambda p: CC(p[0], p[1]), o_coord)


def o_bounds(o, q):
    b = G.BoundsD(q[0], q[0] + 1.0, q[1], q[1] + 2.0)
    r = dict(v=[o.xmin, o.xmax, o.ymin, o.ymax], area=o.area(), c=pos(o.true_center), org=pos(o.origin))
    for n, x in (("or", o + b), ("exp", o.expand(1.5)), ("sh", o.shift(G.PositionD(q[0], q[1]))),
                 ("bord", o.withBorder(0.5)), ("pt", o + G.PositionD(q[2], q[3]))):
        r[n] = [x.xmin, x.xmax, x.ymin, x.ymax]
    return r


add("values", "BoundsD", 4, lambda p: G.BoundsD(p[0], p[0] + 1.5 + p[1], p[2], p[2] + 1.2 + p[3]), o_bounds)


def o_boundsI(o, q):
    r = dict(v=[o.xmin, o.xmax, o.ymin, o.ymax], area=o.area(), c=pos(o.center), tc=pos(o.true_center),
             org=pos(o.origin), shape=list(o.numpyShape()))
    for n, x in (("sh", o.shift(G.PositionI(3, -2))), ("bord", o.withBorder(2))):
        r[n] = [x.xmin, x.xmax, x.ymin, x.ymax]
    return r


def fl5(t):
    return jnp.floor(5 * jnp.asarray(t)).astype(int)


add("values", "BoundsI", 2, lambda p: G.BoundsI(xmin=fl5(p[0]), deltax=4, ymin=fl5(p[1]), deltay=7), o_boundsI)


# --------------------------------------------------------------------- WCS
def o_wcs(o, q):
    ip = G.PositionD(20 * q[0], 20 * q[1])
    wp = G.PositionD(8 * q[2], 8 * q[3])
    xs, ys = jnp.array([q[0], q[1], 3.0]), jnp.array([q[2], 1.0, q[3]])
    j = o.jacobian(ip)
    sc, sh, th, fl = j.getDecomposition()
    a = o.affine(ip)
    sft = o.shiftOrigin(ip, wp)
    d = dict(w=pos(o.toWorld(ip)), i=pos(o.toImage(wp)), wa=list(o.toWorld(xs, ys)), ia=list(o.toImage(xs, ys)),
             area=o.pixelArea(), mn=o.minLinearScale(), mx=o.maxLinearScale(), m=j.getMatrix(),
             dec=[sc, sh.g1, sh.g2, th.rad, fl], aff=[a.u0, a.v0, a.x0, a.y0], sft=pos(sft.toWorld(wp)),
             sft1=pos(o.shiftOrigin(ip).toWorld(wp)), inv=pos(o.inverse().toWorld(wp)),
             s=o.shearToWorld(G.Shear(g1=0.2, g2=0.1 * q[0])).shear,
             s2=o.shearToImage(G.Shear(g1=0.2, g2=0.1 * q[0])).shear,
             pr=o.toWorld(G.Gaussian(sigma=1.0)).xValue(0.2, q[0]),
             pi=o.toImage(G.Gaussian(sigma=1.0)).kValue(0.2, q[0]))
    im = G.ImageD(3, 4)
    o.makeSkyImage(im, 2.0 + q[0])
    d["sky"] = im.array
    return d


def PD(a, b):
    return G.PositionD(10 * a, 10 * b)


def shr(a, b):
    return G.Shear(g1=0.4 * a, g2=0.4 * b)


def wcs(name, n, make, **k):
    add("wcs", name, n, make, o_wcs, **k)


wcs("PixelScale", 1, lambda p: G.PixelScale(Z(p[0])))
wcs("ShearWCS", 3, lambda p: G.ShearWCS(Z(p[0]), shr(p[1], p[2])))
wcs("JacobianWCS", 4, lambda p: G.JacobianWCS(1 + 0.5 * p[0], 0.4 * p[1], 0.4 * p[2], -1 + 0.5 * p[3]))
wcs("OffsetWCS", 5, lambda p: G.OffsetWCS(Z(p[0]), PD(p[1], p[2]), PD(p[3], p[4])))
wcs("OffsetShearWCS", 5, lambda p: G.OffsetShearWCS(Z(p[0]), shr(p[1], p[2]), PD(p[3], p[4]), PD(p[2], p[1])))
wcs("AffineTransform", 6, lambda p: G.AffineTransform(
    1 + 0.5 * p[0], 0.4 * p[1], 0.4 * p[2], -1 + 0.5 * p[3], PD(p[3], p[4]), PD(p[5], p[0])))


def o_cwcs(o, q):
    ip = G.PositionD(20 * q[0], 20 * q[1])
    w = o.toWorld(ip)
    xs, ys = jnp.array([9 * q[0], q[1], 3.0]), jnp.array([q[2], 9.0, 9 * q[3]])
    ra, dec = o.toWorld(xs, ys, units=G.degrees)
    x, y = o.toImage(ra, dec, units=G.degrees)
    j = o.jacobian(ip)
    s = o.shiftOrigin(G.PositionD(3.0, q[2]))
    im = G.ImageD(3, 4)
    o.makeSkyImage(im, 2.0 + q[0])
    return dict(w=coordv(w), i=pos(o.toImage(w)), ra=ra, dec=dec, x=x, y=y, m=j.getMatrix(), area=o.pixelArea(ip),
                s=coordv(s.toWorld(ip)), sky=im.array, l2=o.local(world_pos=w).getMatrix())


def fits_data(p, kind):
    pv = ab = abp = None
    if kind == "TPV":
        pv = np.zeros((2, 4, 4))
        pv[0, 1, 0] = pv[1, 0, 1] = 1.0
        pv = jnp.asarray(pv).at[0, 2, 0].add(0.01 * p[4]).at[1, 0, 2].add(0.02 * p[5]).at[0, 1, 1].add(0.01)
    if kind == "TAN-SIP":
        ab = jnp.zeros((2, 3, 3)).at[0, 2, 0].add(1e-5 * p[4]).at[1, 0, 2].add(2e-5 * p[5]).at[0, 1, 0].add(1.0)
        ab = ab.at[1, 0, 1].add(1.0)
    cd = 1e-4 * jnp.stack([jnp.stack([jnp.asarray(-1 + 0.3 * p[0]), jnp.asarray(0.2 * p[1])]),
                           jnp.stack([jnp.asarray(0.2 * p[1]), jnp.asarray(1 + 0.3 * p[0])])])
    crpix = jnp.stack([jnp.asarray(8 * p[2]), jnp.asarray(-3.0 * p[3])])
    return [kind, crpix, cd, CC(p[3], 0.9 * p[2]), pv, ab, abp]


for kind in ("TAN", "TPV", "TAN-SIP", "STG", "ZEA", "ARC"):
    add("sky", "fits/" + kind, 6, lambda p, kind=kind: G.GSFitsWCS(_data=fits_data(p, kind)), o_cwcs, rtol=1e-8)
add("sky", "TanWCS", 6, lambda p: G.TanWCS(
    G.AffineTransform(0.3 + 0.1 * p[0], 0.05 * p[1], 0.05 * p[2], 0.3, PD(p[3], p[4])), CC(p[5], 0.5 * p[0]),
    units=G.arcsec), o_cwcs, rtol=1e-8)


# ------------------------------------------------------------------ images
def base_arr(p, shape=(6, 8)):
    y, x = np.mgrid[0 : shape[0], 0 : shape[1]]
    return jnp.sin(x * 0.7 + p[0] * 3) * 5 + jnp.cos(y * 1.3 + p[1]) * 3 + p[1]


def o_image(o, q):
    b = o.bounds
    i, j = jnp.floor(2.9 * jnp.abs(q[0])).astype(int), jnp.floor(3.9 * jnp.abs(q[1])).astype(int)
    d = dict(arr=o.array, v=[b.xmin, b.xmax, b.ymin, b.ymax], px=o._getValue(o.xmin + i, o.ymin + j), c=pos(o.center),
             tc=pos(o.true_center), add=(o + 2.5 * q[2]).array, mul=(o * o).array, sub=(1.0 - o).array,
             div=(o / 4.0).array, neg=(-o).array, lr=o.flip_lr().array, ud=o.flip_ud().array, tr=o.transpose().array,
             cw=o.rot_cw().array, ccw=o.rot_ccw().array, r180=o.rot_180().array, iscale=o.scale)
    c = o.copy()
    c._setValue(o.xmin + i, o.ymin + j, 77.0)
    c._addValue(o.xmin, o.ymin + j, 5)
    c += 3
    c.shift(2, -1)
    d["c"] = c.array
    d["cb"] = [c.xmin, c.ymin]
    c2 = o.copy()
    c2.setCenter(4, 5)
    c2.wcs = G.PixelScale(2.0)
    d["c2"] = [c2.xmin, c2.ymin, c2.scale]
    c3 = o.copy()
    c3.fill(q[3])
    d["c3"] = c3.array
    return d


def mkimg(dtype=float, wcs_=None, c=False):
    def make(p):
        a = base_arr(p)
        if c:
            a = a + 1j * base_arr(p[::-1])
        if dtype is int:
            a = jnp.around(a).astype(jnp.int32)
        return G.Image(a.astype(dtype) if dtype is not int else a, xmin=-2, ymin=3,
                       wcs=wcs_(p) if wcs_ else G.PixelScale(0.3))

    return make


add("images", "ImageD", 2, mkimg(), o_image)
add("images", "ImageF", 2, mkimg(np.float32), o_image, rtol=1e-5)
add("images", "ImageI", 2, mkimg(int), o_image)
add("images", "ImageCD", 2, mkimg(complex, c=True), o_image)
add("images", "Image/wcs", 3, mkimg(wcs_=lambda p: G.PixelScale(Z(p[2]))), o_image)


def o_sub(o, q):
    c = o.copy()
    b = G.BoundsI(-1, 2, 4, 7)
    s = c[b]
    d = dict(s=s.array, sb=[s.xmin, s.xmax, s.ymin, s.ymax])
    c[b] = s * 2.0 + q[0]
    d["c"] = c.array
    c.setSubImage(G.BoundsI(0, 1, 5, 5), G.Image(G.BoundsI(0, 1, 5, 5), init_value=3.0, dtype=c.dtype))
    d["c2"] = c.array
    c.invertSelf()
    d["inv"] = c.array
    c.copyFrom(o)
    d["cf"] = c.array
    return d


add("images", "Image/sub", 2, mkimg(), o_sub)


def o_wrap(o, q):
    c = o.copy()
    r = c.wrap(G.BoundsI(-1, 2, 4, 6))
    return dict(r=r.array, rb=[r.xmin, r.ymin], c=c.array)


add("images", "Image/wrap", 2, mkimg(), o_wrap)


def o_fft(o, q):
    k = o.calculate_fft()
    r = k.calculate_inverse_fft()
    return dict(k=k.array, kb=[k.xmin, k.xmax, k.ymin, k.ymax], ks=k.scale, r=r.array, rb=[r.xmin, r.ymin], rs=r.scale)


add("images", "Image/fft", 2,
    lambda p: G.Image(base_arr(p, (8, 8)), xmin=-4, ymin=-4, scale=0.7), o_fft,
    routes=["flatten", "ident", "inside", "build", "vinside"])


# ----------------------------------------------------------------- drawing
FFT = G.GSParams(minimum_fft_size=128, maximum_fft_size=128, maxk_threshold=1e-2, folding_threshold=3e-2)


def comp(p):
    return G.Convolve([exp_(p).shear(g1=0.3 * p[2], g2=0.3 * p[3]), G.Gaussian(sigma=0.8)], gsparams=FFT)


def o_draw(method, dtype=float, **kw):
    def obs(o, q):
        o = o.withGSParams(FFT)
        im = o.drawImage(nx=14, ny=11, scale=0.5 + 0.1 * q[2], offset=(q[0], q[1]), method=method, dtype=dtype, **kw)
        return dict(a=im.array, f=im.added_flux, b=[im.xmin, im.ymin], s=im.scale)

    return obs


add("drawing", "draw/fft", 4, comp, o_draw("fft"), rtol=1e-8)
add("drawing", "draw/auto", 4, lambda p: exp_(p).shear(g1=0.3 * p[2], g2=0.3 * p[3]), o_draw("auto"), rtol=1e-8)
add("drawing", "draw/no_pixel", 4, lambda p: exp_(p).shift(p[2], p[3]), o_draw("no_pixel"))
add("drawing", "draw/sb", 4, lambda p: exp_(p) + gal(p[2:]), o_draw("sb", gain=2.0, exptime=3.0))
add("drawing", "draw/float32", 4, lambda p: exp_(p) + gal(p[2:]), o_draw("no_pixel", np.float32), rtol=1e-5)


def o_draw_image(o, q):
    o = o.withGSParams(FFT)
    im = G.ImageD(G.BoundsI(-3, 9, 2, 12), init_value=0.5)
    im.wcs = G.JacobianWCS(0.5, 0.1 * q[0], 0.05 * q[1], 0.45)
    o.drawImage(im, add_to_image=True, center=(3.0 + q[2], 6.0 + q[3]), method="no_pixel")
    o.drawImage(im, add_to_image=True, method="fft", area=2.0)
    im2 = G.ImageD(13, 12)
    o.drawImage(im2, wcs=G.AffineTransform(0.5, 0.1 * q[0], 0.05, 0.4, G.PositionD(3.0, q[0]), G.PositionD(1.0, 0.0)),
                use_true_center=False, method="fft")
    return dict(a=im.array, a2=im2.array, f=im2.added_flux)


add("drawing", "draw/image", 4, comp, lambda o, q: o_draw_image(o, q), rtol=1e-8)


def o_kdraw(o, q):
    o = o.withGSParams(FFT)
    k = o.drawKImage(nx=11, ny=9, scale=0.3)
    im = G.ImageCD(G.BoundsI(-5, 5, -4, 4), scale=0.23)
    o.drawKImage(im, add_to_image=True, recenter=False)
    return dict(k=k.array, s=k.scale, a=im.array)


add("drawing", "draw/k", 4, lambda p: exp_(p).shift(p[2], p[3]), o_kdraw)
add("drawing", "draw/kconv", 4, comp, o_kdraw)


def o_phot(o, q):
    im = o.drawImage(nx=9, ny=9, scale=0.5, dtype=float, method="phot", n_photons=200, poisson_flux=False, rng=G.BaseDeviate(1234))
    im2 = o.drawImage(nx=9, ny=9, scale=0.5, dtype=float, method="phot", n_photons=200, poisson_flux=False, maxN=64,
                      rng=G.BaseDeviate(5))
    ph = o.makePhot(n_photons=50, poisson_flux=False, rng=G.BaseDeviate(99))
    sh = o.shoot(40, rng=G.UniformDeviate(7))
    return dict(a=im.array, f=im.added_flux, a2=im2.array, x=ph.x, y=ph.y, pf=ph.flux, sx=sh.x, sf=sh.flux)


add("photons", "phot/sum", 4, lambda p: exp_(p).shear(g1=0.3 * p[2], g2=0.3 * p[3]) + gal(p[2:]), o_phot)
add("photons", "phot/conv", 4, lambda p: G.Convolve(exp_(p[:2]), gal(p[2:])), o_phot)
add("photons", "phot/moffat", 4, lambda p: G.Moffat(beta=3.0 + p[0], half_light_radius=Z(p[1]), flux=F(p[2])).shift(p[2], p[3]), o_phot)
add("photons", "phot/box", 3, lambda p: G.Box(Z(p[0]), Z(p[1]), flux=F(p[2])), o_phot)


# -------------------------------------------------------- interpolated images
def ii_img(p, n=8):
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    a = jnp.exp(-0.15 * ((x - p[0]) ** 2 + (y + p[1]) ** 2)) * (2 + p[2])
    return G.Image(a, scale=0.4)


def o_ii(o, q):
    d = dict(flux=o.flux, cx=o.centroid.x, cy=o.centroid.y, x=o.xValue(q[0], q[1]), x2=o.xValue(0.1 * q[2], 0.1 * q[3]),
             k=o.kValue(q[0], q[1]), maxk=o.maxk, stepk=o.stepk, max_sb=o.max_sb)
    d["a"] = o.drawImage(nx=7, ny=6, scale=0.4, dtype=float, method="no_pixel", offset=(0.3 * q[0], 0.2 * q[1])).array
    d["t"] = o.shear(g1=0.1 * q[2], g2=0.1).shift(0.2, q[3]).xValue(q[0], q[1])
    d["kk"] = o.drawKImage(nx=5, ny=5, scale=0.3).array
    return d


for ip in ("linear", "cubic", "quintic", "lanczos3", "nearest"):
    add("interp", "ii/" + ip, 3, lambda p, ip=ip: G.InterpolatedImage(ii_img(p), x_interpolant=ip), o_ii, rtol=1e-8)
add("interp", "ii/flux", 4, lambda p: G.InterpolatedImage(ii_img(p), flux=F(p[3]), x_interpolant="quintic"), o_ii,
    rtol=1e-8)
add("interp", "ii/offset", 5,
    lambda p: G.InterpolatedImage(ii_img(p), offset=(p[3], p[4]), x_interpolant="lanczos5"), o_ii,
    rtol=1e-8)
add("interp", "ii/scale", 4, lambda p: G.InterpolatedImage(ii_img(p), scale=lin(p[3], 0.2, 0.6), x_interpolant="cubic",
                                                          normalization="sb"), o_ii, rtol=1e-8)


def o_interp(o, q):
    x = jnp.array([3 * q[0], q[1], 0.5 * q[2], q[3], 0.0, 1.0])
    return dict(x=o.xval(x), k=o.kval(x * 2), x1=o.xval(q[0]), k1=o.kval(q[1]), kr=o.krange, xr=o.xrange)


for ip in ("linear", "cubic", "quintic", "lanczos3", "lanczos5", "nearest", "sinc", "delta"):
    add("interp", "interp/" + ip, 1, lambda p, ip=ip: G.Interpolant.from_name(ip), o_interp, routes=["flatten", "ident", "arg"])
add("interp", "interp/lanczos4F", 1, lambda p: G.Lanczos(4, conserve_dc=False), o_interp, routes=["flatten", "ident", "arg"])


# ---------------------------------------------------- random numbers, noise
def o_dev(o, q):
    d = [o() for _ in range(3)]
    g = o.generate(jnp.zeros(4))
    o.discard(2)
    e = o()
    dup = o.duplicate()
    return dict(d=d, g=g, e=e, dup=[dup(), o()], raw=o.raw(), u=G.UniformDeviate(o)())


def sd(t):
    return jnp.floor(jnp.abs(jnp.asarray(t)) * 1e6).astype(int) + 1


for n, k, f in (
    ("Uniform", 1, lambda p: G.UniformDeviate(sd(p[0]))),
    ("GaussianDev", 3, lambda p: G.GaussianDeviate(sd(p[0]), mean=p[1], sigma=Z(p[2]))),
    ("Poisson", 2, lambda p: G.PoissonDeviate(sd(p[0]), mean=lin(p[1], 0.5, 60))),
    ("Binomial", 2, lambda p: G.BinomialDeviate(sd(p[0]), N=12, p=lin(p[1], 0.1, 0.9))),
    ("Weibull", 3, lambda p: G.WeibullDeviate(sd(p[0]), a=Z(p[1]), b=Z(p[2]))),
    ("Gamma", 3, lambda p: G.GammaDeviate(sd(p[0]), k=Z(p[1]), theta=Z(p[2]))),
    ("Chi2", 2, lambda p: G.Chi2Deviate(sd(p[0]), n=lin(p[1], 1, 8))),
):
    add("random", n, k, f, o_dev, routes=CONCRETE)


def o_noise(o, q):
    im = G.ImageD(5, 4, init_value=20.0)
    im += q[0]
    v = o.getVariance()
    o.applyTo(im)
    im.addNoise(o)
    im3 = G.ImageD(5, 4, init_value=20.0)
    s = o.withScaledVariance(2.0) if not isinstance(o, G.DeviateNoise) else o
    s.applyTo(im3)
    im2 = G.ImageD(5, 4, init_value=20.0)
    im2.addNoise(o.copy())
    return dict(v=v, a=im.array, s=im3.array, c=im2.array)


for n, k, f in (
    ("GaussianNoise", 2, lambda p: G.GaussianNoise(G.BaseDeviate(sd(p[0])), sigma=Z(p[1]))),
    ("PoissonNoise", 2, lambda p: G.PoissonNoise(G.BaseDeviate(sd(p[0])), sky_level=F(p[1]))),
    ("CCDNoise", 4, lambda p: G.CCDNoise(G.BaseDeviate(sd(p[0])), sky_level=F(p[1]), gain=Z(p[2]), read_noise=Z(p[3]))),
):
    add("random", n, k, f, o_noise, routes=CONCRETE)
add("random", "DeviateNoise", 2, lambda p: G.DeviateNoise(G.GaussianDeviate(sd(p[0]), sigma=Z(p[1]))),
    lambda o, q: dict(a=apply_noise(o)), routes=CONCRETE)
add("random", "VariableGaussianNoise", 2,
    lambda p: G.VariableGaussianNoise(G.BaseDeviate(sd(p[0])), G.Image(jnp.abs(base_arr(p, (4, 5))), dtype=float)),
    lambda o, q: dict(a=apply_noise(o), v=o.var_image.array), routes=CONCRETE)


def apply_noise(o):
    im = G.ImageD(5, 4, init_value=2.0)
    o.applyTo(im)
    return im.array


def o_pa(o, q):
    d = dict(x=o.x, y=o.y, f=o.flux, t=o.getTotalFlux(), n=len(o))
    im = G.ImageD(G.BoundsI(-3, 3, -3, 3))
    d["af"] = o.addTo(im)
    d["im"] = im.array
    o.scaleFlux(2.0)
    o.scaleXY(1.5 + q[0])
    o.x = o.x + q[1]
    d["x2"], d["f2"] = o.x, o.flux
    o.setTotalFlux(3.0)
    d["f3"] = o.flux
    b = G.PhotonArray(6)
    b.x, b.y, b.flux = jnp.arange(6) * q[2], jnp.arange(6) * 0.1, jnp.ones(6)
    b.copyFrom(o)
    d["b"] = [b.x, b.y, b.flux]
    o.convolve(b, rng=G.BaseDeviate(3))
    d["cx"], d["cf"] = o.x, o.flux
    return d


def mkpa(p):
    x = jnp.linspace(-2, 2, 6)
    return G.PhotonArray.fromArrays(x * p[0], x * p[1] + p[2], jnp.abs(x) + 0.1 + p[2] ** 2)


add("photons", "PhotonArray", 3, mkpa, o_pa)


def mkpa2(p):
    a = mkpa(p)
    a.dxdz, a.dydz = a.x * 0.1, a.y * 0.2
    a.wavelength = jnp.ones(6) * (500 + p[0])
    a.pupil_u, a.pupil_v = a.x, a.y * 2
    a.time = jnp.arange(6) * p[1]
    return a


add("photons", "PhotonArray/full", 3, mkpa2,
    lambda o, q: dict(w=o.wavelength, a=[o.dxdz, o.dydz], u=[o.pupil_u, o.pupil_v], t=o.time,
                      h=[o.hasAllocatedAngles(), o.hasAllocatedWavelengths(), o.hasAllocatedPupil(),
                         o.hasAllocatedTimes(), o.isCorrelated()], f=o.flux))


# --------------------------------------------------------------- comparison
def flat(d):
    leaves = {}
    for k, v in d.items():
        if isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                leaves["%s[%d]" % (k, i)] = np.asarray(x)
        else:
            leaves[k] = np.asarray(v)
    return leaves


def compare(what, got, want, rtol, row=None):
    for k, w in want.items():
        g = got[k]
        if row is not None:
            g = g if g.shape == w.shape and row is False else g[row]
        if g.shape != w.shape:
            raise Violation("%s: %s has shape %s, eager %s" % (what, k, g.shape, w.shape))
        if w.dtype.kind != g.dtype.kind:
            raise Violation("%s: %s has dtype %s, eager %s" % (what, k, g.dtype, w.dtype))
        with np.errstate(all="ignore"):
            if w.dtype.kind in "biu":
                ok = g == w
            else:
                m = np.max(np.abs(np.where(np.isfinite(w), w, 0)), initial=0)
                ok = np.abs(g - w) <= rtol * (np.abs(w) + m) + 1e-13
                ok |= (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
            raise Violation("%s: %s%s is %r, eager %r" % (what, k, list(i), np.atleast_1d(g)[i], np.atleast_1d(w)[i]))


def jitted(t, route):
    if route not in t.jit:
        arrays = lambda d: jax.tree_util.tree_map(jnp.asarray, d)  # noqa: E731
        f = {
            "ident": lambda o: o,
            "arg": lambda o, q: arrays(t.obs(o, q)),
            "inside": lambda p, q: arrays(t.obs(t.make(p), q)),
            "build": lambda p: t.make(p),
        }
        if route in f:
            t.jit[route] = jax.jit(f[route])
        elif route == "vinside":
            t.jit[route] = jax.jit(jax.vmap(f["inside"]))
        elif route == "varg":
            t.jit[route] = jax.jit(jax.vmap(f["arg"]))
    return t.jit[route]


def stacked(objs):
    ds = [jax.tree_util.tree_structure(o) for o in objs]
    if any(d != ds[0] for d in ds) or any(hash(d) != hash(ds[0]) for d in ds):
        raise Violation("objects differing in real parameters only have different tree structures: %s, %s"
                        % (ds[0], [d for d in ds if d != ds[0]][:1]))
    return jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *objs)


def getq(q):
    return [float(x) for x in q]


def run(t, case, routes):
    P, q = [getq(r[: t.n]) for r in case["P"]], getq(case["q"])
    Q = [q, q[::-1], [0.5 * x for x in q]]
    n = 3 if any(r.startswith("v") for r in routes) else 1
    want = [flat(t.obs(t.make(P[i]), Q[i])) for i in range(n)]
    for r in routes:
        label(r)
        w = "%s via %s" % (t.name, r)
        if r == "flatten":
            o = t.make(P[0])
            leaves, td = jax.tree_util.tree_flatten(o)
            o2 = jax.tree_util.tree_unflatten(td, leaves)
            if t.eq and not o2 == o:
                raise Violation("%s: %r unflattens to %r" % (t.name, o, o2))
            compare(w, flat(t.obs(o2, Q[0])), want[0], 1e-12 if t.rtol < 1e-6 else t.rtol)
            o3 = jax.tree_util.tree_map(jnp.asarray, t.make(P[0]))
            compare(w + " (array leaves)", flat(t.obs(o3, Q[0])), want[0], t.rtol)
        elif r == "ident":
            o = t.make(P[0])
            o2 = jitted(t, r)(o)
            if type(o2) is not type(o) or (t.eq and not o2 == o):
                raise Violation("%s: %r comes out of a jitted identity as %r" % (t.name, o, o2))
            compare(w, flat(t.obs(o2, Q[0])), want[0], t.rtol)
        elif r == "arg":
            compare(w, flat(jitted(t, r)(t.make(P[0]), Q[0])), want[0], t.rtol)
        elif r == "inside":
            compare(w, flat(jitted(t, r)(P[0], Q[0])), want[0], t.rtol)
        elif r == "build":
            compare(w, flat(t.obs(jitted(t, r)(P[0]), Q[0])), want[0], t.rtol)
        elif r in ("vinside", "varg"):
            if r == "vinside":
                a = [jnp.array([P[i][j] for i in range(3)]) for j in range(t.n)]
            else:
                a = stacked([t.make(x) for x in P])
            got = flat(jitted(t, r)(a, [jnp.array([Q[i][j] for i in range(3)]) for j in range(NQ)]))
            for i in range(3):
                compare("%s row %d" % (w, i), got, want[i], t.rtol, i)


def vals(draw, n, salt):
    """n numbers in [-1, 1]; the simplest draw is not the trivial one, as some
    templates get one case only."""
    return [((i + 6180 * (j + salt + 1)) % 20001 - 10000) / 10000.0
            for j, i in enumerate(draw(st.lists(st.integers(0, 20000), min_size=n, max_size=n)))]


def pq(draw):
    return dict(P=[vals(draw, 6, s) for s in (0, 7, 15)], q=vals(draw, NQ, 23))


# templates that compile slowly: two boundaries per case instead of all
HEAVY = ("Spergel", "phot/", "CCDNoise", "ii/", "fits/", "PhotonArray", "Moffat", "CelestialCoord", "draw/", "TanWCS")


def cases_for(name):
    heavy = name.startswith(HEAVY)
    routes = T[name].routes

    @st.composite
    def cases(draw):
        i = draw(st.integers(0, len(routes) - 2)) + zlib.crc32(name.encode())
        rs = ["flatten", routes[1 + i % (len(routes) - 1)]] if heavy else routes
        return dict(routes=rs, **pq(draw))

    return cases


def one_for(name):
    def one(case):
        t = T[name]
        label(t.group)
        run(t, case, case["routes"])
        return any(x != 0 for x in case["q"])

    return one


@st.composite
def pool_cases(draw):
    spec = draw(S.trees(S.leaves(("Gaussian", "Exponential", "Box", "Moffat", "Pixel"), moffat_beta=(2.3, 5.0)),
                        2, maxops=2, deconv=False))
    return dict(spec=spec, routes=["flatten", draw(st.sampled_from(["arg", "inside", "build"])),
                                   draw(st.sampled_from(["vinside", "varg"]))], **pq(draw))


def pool(case):
    t = pool_template(case["spec"])
    run(t, case, case["routes"])
    return S.nops(case["spec"]) + len(S.leaf_kinds(case["spec"])) > 1


RULE = "some evaluation argument is not zero; every case crosses all the JAX boundaries of its template"
TESTS = []
for n, t in sorted(T.items()):
    k = 1 if n.startswith(HEAVY) else 3
    cost = 25.0 if n.startswith(("Spergel", "phot/", "CCDNoise")) else 7.0 if k == 1 else 1.5
    TESTS.append(Test(n, cases_for(n), one_for(n), k, 60 if k == 1 else 75, RULE, shards=1, cost=cost))
TESTS.append(Test("structures", pool_cases, pool, 16, 1200, "the structure has more than one component", shards=8, cost=3.0))
