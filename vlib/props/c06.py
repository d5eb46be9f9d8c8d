"""C06: automatic derivatives are the true derivatives.

For a template (see C05) the observables are reduced to one smooth scalar each
(a fixed random combination of the entries of an image or array).  Reverse-mode
derivatives with respect to every real parameter and evaluation argument are
compared with a fourth-order central difference of the same jitted function.
The difference is taken with two steps; where the two do not agree the function
is not smooth at that point (a kink) and the entry is not judged.
"""

import zlib

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, label
from vlib.props import c05
from vlib.props.c05 import F, NQ, Z, G, comp, exp_, gal, o_prof, pos, vals
from vlib.specs import JG  # noqa: F401

# not derivatives of anything continuous, or set by thresholds
DROP = {"maxk", "stepk", "nyq", "good", "kr", "xr", "rnd"}
X = {}


class Tpl:
    def __init__(self, name, n, make, obs, wrt=None, special=False, tol=3e-6):
        self.name, self.n, self.make, self.obs, self.tol, self.special = name, n, make, obs, tol, special
        self.wrt = list(range(n + NQ)) if wrt is None else wrt
        self.f = None


def add(name, n, make, obs, **k):
    X[name] = Tpl(name, n, make, obs, **k)


def reuse(name, **k):
    t = c05.T[name]
    add(name, t.n, t.make, t.obs, **k)


def no(n, *skip):
    return [i for i in range(n + NQ) if i not in skip]


for nm in ("Gaussian/sigma", "Gaussian/half_light_radius", "Gaussian/fwhm", "Exponential/scale_radius",
           "Exponential/half_light_radius", "Pixel", "Box", "Sum", "Sum3", "Convolve", "Convolve3", "ConvDeconv",
           "shear", "shear_obj", "shear_qbeta", "rotate", "dilate", "magnify", "lens", "shift", "transform", "flux ops",
           "chain", "PositionD", "Angle", "Angle/unit", "AngleUnit", "BoundsD", "PixelScale", "ShearWCS", "JacobianWCS",
           "OffsetWCS", "OffsetShearWCS", "AffineTransform", "CelestialCoord", "fits/TAN", "fits/STG", "fits/ZEA",
           "fits/ARC", "fits/TPV", "fits/TAN-SIP", "TanWCS", "ImageD", "ImageCD", "Image/wcs", "Image/sub", "Image/wrap",
           "Image/fft", "draw/fft", "draw/auto", "draw/no_pixel", "draw/sb", "draw/image", "draw/k", "draw/kconv",
           "ii/linear", "ii/cubic", "ii/quintic", "ii/lanczos3", "ii/flux", "ii/offset", "ii/scale"):
    reuse(nm)
for nm in ("g", "e", "eta", "gb", "eb", "etab", "qb"):
    reuse("Shear/" + nm)
# documented: no derivative with respect to beta and nu
for nm in ("Moffat/scale_radius", "Moffat/half_light_radius", "Moffat/fwhm"):
    reuse(nm, wrt=no(3, 2), tol=2e-5)
for a in ("scale_radius", "half_light_radius"):
    # the central surface brightness is infinite for nu <= 0
    add("Spergel/" + a, 3, lambda p, a=a: G.Spergel(nu=c05.lin(p[2], 0.1, 3.5), flux=F(p[0]), **{a: Z(p[1])}),
        o_prof("scale_radius", "half_light_radius"), wrt=no(3, 2))


def o_cusp(o, q):
    return dict(x=o.xValue(2 * q[0], 2 * q[1]), k=o.kValue(2 * q[2], 2 * q[3]), flux=o.flux, r=o.half_light_radius)


add("Spergel/cusp", 3, lambda p: G.Spergel(nu=c05.lin(p[2], -0.6, 0.0), flux=F(p[0]), half_light_radius=Z(p[1])),
    o_cusp, wrt=no(3, 2))


# image statistics, kernels and functions that C05 does not need
def o_ip(i):
    def obs(o, q):
        ip = o
        x = 2.7 * jnp.stack([jnp.asarray(v) for v in q])
        return dict(x=ip.xval(x), k=ip.kval(x))

    return obs


for nm in ("linear", "cubic", "quintic", "lanczos3", "lanczos4", "lanczos5", "sinc"):
    add("kernel/" + nm, 0, lambda p, nm=nm: G.Interpolant.from_name(nm), o_ip(nm))


def o_bessel(o, q):
    d = {}
    for i, nu in enumerate((0.0, 0.3, 1.0, 2.5, 4.2, 55.0)):
        d["kv%d" % i] = G.bessel.kv(nu, c05.lin(jnp.asarray(q[i % 4]), 0.05, 6.0) * (20 if nu > 50 else 1))
    d["j0"] = G.bessel.j0(jnp.stack([9 * jnp.asarray(v) for v in q]))
    d["si"] = G.bessel.si(jnp.stack([9 * jnp.asarray(v) for v in q]))
    return d


add("bessel", 0, lambda p: None, o_bessel)


def o_util(o, q):
    x = jnp.linspace(-1, 1, 5) * (1 + 0.3 * q[0])
    co = jnp.stack([jnp.asarray(v) for v in q])
    m = G.utilities.unweighted_moments(o)
    s = G.utilities.unweighted_shape(o)
    d = dict(h=G.utilities.horner(x, co), h2=G.utilities.horner2d(x, x[::-1], jnp.outer(co, co)),
             i1=G.integ.int1d(lambda t: jnp.exp(-t * t) * (t + q[2]) ** 2, -1.0, 1.0 + 0.1 * q[0]))
    for k, v in list(m.items()) + list(s.items()):
        d["m" + k] = v
    return d


def blob(p):
    y, x = np.mgrid[0:9, 0:9] - 4.0
    return G.Image(jnp.exp(-0.2 * ((x - p[0]) ** 2 + 1.3 * (y + p[1]) ** 2 + 0.4 * p[2] * x * y)) * (2 + p[1]), scale=0.4)


add("stats", 3, blob, o_util)


# the documented use: a loss between drawn images
def o_loss(method):
    def obs(o, q):
        o = o.withGSParams(c05.FFT)
        im = o.drawImage(nx=13, ny=12, scale=0.4, dtype=float, method=method, offset=(0.4 * q[0], 0.3 * q[1]))
        r = np.cos(np.arange(156).reshape(12, 13) * 1.7)
        m = G.utilities.unweighted_moments(im)
        return dict(chi2=jnp.sum((im.array - 0.1 * r) ** 2), flux=im.array.sum(), mx=m["Mx"], mxx=m["Mxx"],
                    mxy=m["Mxy"], added=im.added_flux)

    return obs


add("loss/fft", 6, lambda p: G.Convolve([exp_(p[:2]).shear(g1=0.3 * p[2], g2=0.3 * p[3]).shift(p[4], p[5]),
                                         G.Gaussian(fwhm=0.7)]), o_loss("auto"))
add("loss/no_pixel", 6, lambda p: gal(p[:2]).shear(g1=0.3 * p[2], g2=0.3 * p[3]).shift(p[4], p[5]), o_loss("no_pixel"))
add("loss/moffat", 6, lambda p: G.Moffat(beta=2.6, half_light_radius=Z(p[1]), flux=F(p[0]))
    .shear(e1=0.3 * p[2], e2=0.3 * p[3]).shift(p[4], p[5]), o_loss("auto"), tol=2e-5)
add("loss/spergel", 6, lambda p: G.Spergel(nu=0.8, half_light_radius=Z(p[1]), flux=F(p[0]))
    .shear(g1=0.3 * p[2], g2=0.3 * p[3]).shift(p[4], p[5]), o_loss("auto"))


# special points: untransformed shears and shifts, the pixel on the centre
def o_centre(o, q):
    im = o.drawImage(nx=5, ny=5, scale=0.5, dtype=float, method="no_pixel")
    k = o.drawKImage(nx=5, ny=5, scale=0.3)
    return dict(a=im.array, c=o.xValue(0.0, 0.0), k0=o.kValue(0.0, 0.0), k=k.array, flux=o.flux)


def o_centre_k(o, q):
    o = o.withGSParams(c05.FFT)
    im = o.drawImage(nx=5, ny=5, scale=0.5, dtype=float, method="auto")
    return dict(a=im.array, k0=o.kValue(0.0, 0.0), k=o.drawKImage(nx=5, ny=5, scale=0.3).array, flux=o.flux)


LEAF = dict(
    Gaussian=lambda p: gal(p), Exponential=lambda p: exp_(p),
    Moffat=lambda p: G.Moffat(beta=2.6, half_light_radius=Z(p[1]), flux=F(p[0])),
    Spergel=lambda p: G.Spergel(nu=0.8, scale_radius=Z(p[1]), flux=F(p[0])),
    SpergelNeg=lambda p: G.Spergel(nu=1.7, half_light_radius=Z(p[1]), flux=-F(p[0])),
    Sum=lambda p: gal(p) + 0.5 * exp_(p).dilate(1.3),
    ii=lambda p: G.InterpolatedImage(G.Image(jnp.exp(-0.2 * (np.mgrid[0:7, 0:7] - 3.0)[0] ** 2) * F(p[0]) * (1 + 0 * p[1]),
                                             scale=0.5), x_interpolant="quintic", flux=F(p[0])),
)
for nm, f in LEAF.items():
    tol = 2e-5 if nm == "Moffat" else 3e-6
    add("centre/" + nm, 2, f, o_centre, wrt=[0, 1], tol=tol)
    add("unsheared/" + nm, 6, lambda p, f=f: f(p[:2]).shear(g1=0.3 * p[2], g2=0.3 * p[3]).shift(p[4], p[5]),
        o_centre_k if nm != "ii" else o_centre, special=True, tol=tol, wrt=list(range(6)))
for nm, f in (("g", lambda p: G.Shear(g1=0.6 * p[0], g2=0.6 * p[1])), ("e", lambda p: G.Shear(e1=0.6 * p[0], e2=0.6 * p[1])),
              ("eta", lambda p: G.Shear(eta1=p[0], eta2=p[1]))):
    add("roundshear/" + nm, 2, f,
        lambda o, q: dict(g1=o.g1, g2=o.g2, e1=o.e1, e2=o.e2, eta1=o.eta1, eta2=o.eta2, m=o.getMatrix(),
                          add=(o + G.Shear(g1=0.2, g2=0.1)).shear), special=True)


# --------------------------------------------------------------- evaluation
def scalars(t, z):
    p, q = [z[i] for i in range(t.n)], [z[t.n + i] for i in range(NQ)]
    d = t.obs(t.make(p), q)
    keys, out = [], []
    for k, v in d.items():
        if k in DROP or k.split("[")[0] in DROP:
            continue
        vs = v if isinstance(v, (list, tuple)) else [v]
        for i, x in enumerate(vs):
            x = jnp.asarray(x)
            if x.dtype.kind not in "fc":
                continue
            w = np.cos(1.0 + 2.3 * np.arange(x.size) + zlib.crc32(k.encode()) % 7).reshape(x.shape)
            keys.append(k if len(vs) == 1 else "%s[%d]" % (k, i))
            if x.dtype.kind == "c":
                out += [jnp.sum(w * x.real), jnp.sum(w * x.imag)]
                keys[-1] = k + ".re"
                keys.append(k + ".im")
            else:
                out.append(jnp.sum(w * x))
    t.keys = keys
    return jnp.stack([jnp.asarray(o, dtype=float) for o in out])


STEPS = np.array([1.0, -1.0, 2.0, -2.0])
COEF = np.array([8.0, -8.0, -1.0, 1.0]) / 12.0


def functions(t):
    if t.f is None:
        f = lambda z: scalars(t, z)  # noqa: E731
        t.f = jax.jit(jax.vmap(f))
        t.jac = jax.jit(jax.jacrev(f))
    return t


def check(t, z):
    functions(t)
    z = jnp.asarray(z, dtype=float)
    J = np.asarray(t.jac(z))
    y = None
    hs = (4e-4, 1e-4)
    D = []
    for h in hs:
        pts = np.array([np.asarray(z) + h * s * np.eye(len(z))[i] for i in t.wrt for s in STEPS])
        # one batch shape per template
        v = np.asarray(t.f(jnp.asarray(np.concatenate([np.asarray(z)[None], pts]))))
        y, v = v[0], v[1:].reshape(len(t.wrt), 4, -1)
        D.append(np.einsum("s,isk->ki", COEF, v) / h)
    judged = 0
    for k, key in enumerate(t.keys):
        scale = max(np.abs(y[k]), np.nanmax(np.abs(D[1][k]), initial=0.0), 1e-12)
        if not np.isfinite(y[k]):
            continue
        for c, i in enumerate(t.wrt):
            a, b, g = D[0][k, c], D[1][k, c], J[k, i]
            if not (np.isfinite(a) and np.isfinite(b)):
                continue
            err = abs(a - b)
            if err > 1e-4 * scale:
                continue
            judged += 1
            what = "argument %d" % (i - t.n) if i >= t.n else "parameter %d" % i
            if not np.isfinite(g):
                raise Violation("%s: the derivative of %s with respect to %s is %r, the slope is %r" % (t.name, key, what, g, b))
            if abs(g - b) > t.tol * scale + 30 * err + 1e-9:
                raise Violation("%s: the derivative of %s with respect to %s is %r, the slope is %r (value %r)"
                                % (t.name, key, what, g, b, y[k]))
    if not judged:
        raise Inconclusive("no smooth entry")
    return judged


def cases_for(name):
    t = X[name]

    @st.composite
    def cases(draw):
        v = vals(draw, t.n + NQ, zlib.crc32(name.encode()) % 97)
        if t.special:
            z = draw(st.sampled_from([(1, 1, 0, 0), (1, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1), (0, 1, 1, 0)]))
            n0 = t.n - (4 if t.n > 2 else 2)
            for i in range(n0, t.n):
                if z[i - n0]:
                    v[i] = 0.0
        return dict(z=v)

    return cases


def one_for(name):
    def one(case):
        label(name.split("/")[0])
        z = [float(x) for x in case["z"]]
        if len(z) != X[name].n + NQ:
            return False
        n = check(X[name], z)
        label("judged<30" if n < 30 else "judged>=30")
        return True

    return one


RULE = "at least one derivative is judged (its finite differences converge)"
TESTS = []
for n, t in sorted(X.items()):
    heavy = n.startswith(("Spergel", "Moffat", "ii/", "fits/", "CelestialCoord", "draw/", "loss/", "TanWCS", "centre/Sp",
                          "centre/M", "unsheared/", "ii"))
    only_thorough = n in ("Moffat/fwhm", "Moffat/scale_radius", "unsheared/Moffat", "ii/flux", "centre/SpergelNeg")
    TESTS.append(Test(n, cases_for(n), one_for(n), 0 if only_thorough else 2 if heavy else 3, 100, RULE, shards=1,
                      cost=15.0 if n in ("fits/TPV", "fits/TAN-SIP") else 5.0 if heavy else 1.0))


@st.composite
def pool_cases(draw):
    spec = draw(S.trees(S.leaves(("Gaussian", "Exponential", "Box", "Moffat"), moffat_beta=(2.3, 5.0)), 2, maxops=2,
                        deconv=False))
    return dict(spec=spec, z=vals(draw, 5 + NQ, 31))


def pool(case):
    spec = case["spec"]
    make = c05.pool_make(spec, "beta")  # documented: no derivative with respect to beta
    z = [float(x) for x in case["z"]]
    check(Tpl("structure", 5, make, o_prof(x=not S.has(spec, "conv")),
              tol=2e-5 if "Moffat" in S.leaf_kinds(spec) else 3e-6), z)
    return S.nops(spec) + len(S.leaf_kinds(spec)) > 1


TESTS.append(Test("structures", pool_cases, pool, 8, 1600, "the structure has more than one component", shards=8,
                  cost=2.0))
