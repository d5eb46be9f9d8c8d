"""C15: photon shooting reproduces the profile and accounts for all flux."""

import math
import warnings

import jax
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Inconclusive, Test, Violation, close, equal, f, label, raises, require
from vlib.specs import JG, RG

warnings.filterwarnings("ignore")

INTERPS = ["nearest", "linear", "cubic", "quintic", "lanczos3", "lanczos5", "delta"]
NEGATIVE = ("cubic", "quintic", "lanczos3", "lanczos5")


# ------------------------------------------------------------------ profiles that can be shot
def stampim(seed, n, kind):
    r = np.random.RandomState(seed)
    a = r.uniform(0.2, 1.0, (n, n))
    if kind == "signed":
        a = r.uniform(-0.5, 1.0, (n, n))
    elif kind == "blob":
        y, x = np.mgrid[:n, :n] - (n - 1) / 2.0
        a = np.exp(-(x**2 + 0.5 * y**2 + 0.3 * x * y) / n)
    return np.round(a, 3)


@st.composite
def iileaf(draw):
    return {"leaf": "II", "p": dict(flux=draw(S.posflux), seed=draw(st.integers(0, 999)), n=draw(st.sampled_from([4, 7])),
                                    kind=draw(st.sampled_from(["pos", "signed", "blob"])), interp=draw(st.sampled_from(INTERPS[:6])),
                                    scale=draw(S.fl(0.3, 1.0, 2)))}


@st.composite
def trees(draw, depth=2, ii=True, kinds=S.LEAVES):
    """A profile expression. Components have positive flux: GalSim mis-shoots sums with a
    component of negative flux and this library does the same (a known finding)."""
    leaf = S.leaves(kinds=kinds, flux=S.posflux, size=S.fl(0.4, 1.6, 3), moffat_beta=(2.2, 5.0), spergel_nu=(0.05, 3.0))
    k = draw(st.sampled_from(["leaf"] if depth == 0 else ["leaf", "sum", "sum", "conv", "ops", "ops"] + (["ii"] if ii else [])))
    if k == "leaf":
        return draw(leaf)
    if k == "ii":
        return draw(iileaf())
    if k == "sum":
        parts = draw(st.lists(trees(depth - 1, ii, kinds), min_size=2, max_size=3))
        return {"sum": parts}
    if k == "conv":
        return {"conv": draw(st.lists(trees(depth - 1, ii, kinds), min_size=2, max_size=2))}
    o = draw(st.lists(S.ops(("shear", "rotate", "dilate", "magnify", "lens", "transform", "shift", "mul", "withFlux", "withScaledFlux")),
                      min_size=1, max_size=3))
    o = [([x[0], abs(x[1])] if x[0] in ("mul", "withFlux", "withScaledFlux") else x) for x in o]
    return {"on": draw(trees(depth - 1, ii, kinds)), "ops": o}


def tame(spec, top=True):
    """Negative pixels only in an image shot by itself."""
    if spec.get("leaf") == "II":
        return spec if top or spec["p"]["kind"] != "signed" else {"leaf": "II", "p": dict(spec["p"], kind="blob")}
    for k in ("sum", "conv"):
        if k in spec:
            return {k: [tame(s, False) for s in spec[k]]}
    return dict(spec, on=tame(spec["on"], top)) if "on" in spec else spec


def build(spec, G, gsp=None):
    if spec.get("leaf") == "II":
        p = spec["p"]
        kw = {"gsparams": G.GSParams(**gsp)} if gsp else {}
        return G.InterpolatedImage(G.Image(stampim(p["seed"], p["n"], p["kind"]), scale=p["scale"]), flux=p["flux"],
                                   x_interpolant=p["interp"], **kw)
    if "leaf" in spec:
        return S.build(spec, G, gsp)
    if "sum" in spec:
        return G.Sum([build(s, G, gsp) for s in spec["sum"]])
    if "conv" in spec:
        return G.Convolve([build(s, G, gsp) for s in spec["conv"]], real_space=False)
    o = build(spec["on"], G, gsp)
    for op in spec["ops"]:
        o = S.apply_op(o, op, G)
    return o


def leaf_list(spec):
    if "leaf" in spec:
        return [spec]
    return [x for k in ("sum", "conv") for s in spec.get(k, []) for x in leaf_list(s)] + (leaf_list(spec["on"]) if "on" in spec else [])


def has_delta(spec):
    return any(x["leaf"] == "DeltaFunction" for x in leaf_list(spec))


def has_signed(spec):
    """Images with negative pixels: GalSim's photons have the wrong total flux (a known
    finding); such profiles are compared with GalSim's photons instead."""
    return any(x["leaf"] == "II" and x["p"]["kind"] == "signed" for x in leaf_list(spec))


def has_neg(spec):
    """Whether some photons of it carry negative flux."""
    if spec.get("leaf") == "II":
        return spec["p"]["interp"] in NEGATIVE or spec["p"]["kind"] == "signed"
    if "leaf" in spec:
        return False
    if "on" in spec:
        return has_neg(spec["on"])
    return any(has_neg(s) for k in ("sum", "conv") for s in spec.get(k, []))


# mostly few values: every new number of photons is compiled anew
FEW = st.sampled_from([0.3, 0.6, 5.3, 17.7, 30.3, 30.6, 100.0, 333.2])
FLUX = st.one_of(FEW, FEW, FEW, FEW, S.fl(0.7, 60.0, 2), S.fl(20, 800, 1))


# ------------------------------------------------------------------ photon numbers and fluxes
@st.composite
def numcase(draw):
    # (Spergel compiles too slowly to be used with ever new array sizes; see radial and shape)
    t = tame(draw(trees(kinds=("Gaussian", "Exponential", "Moffat", "Box", "Pixel", "DeltaFunction"))))
    return [t, draw(FLUX), draw(st.booleans()),
            draw(st.sampled_from([None, None, 0.0, 5.0, 40.0])), draw(st.sampled_from([None, None, True, False])),
            draw(st.sampled_from([None, None, 7, 100, 30.4, 30.6])), draw(S.seeds)]


def numbers(case):
    """How many photons, and how much flux each of them carries."""
    spec, flux, neg, noise, poisson, n, seed = case
    j, r = build(spec, JG).withFlux(-flux if neg else flux), build(spec, RG).withFlux(-flux if neg else flux)
    fpp = r._flux_per_photon
    if fpp < 0.15:
        raise Inconclusive("nearly cancelling")
    for name in ("positive_flux", "negative_flux", "_flux_per_photon"):
        close(name, f(getattr(j, name)), getattr(r, name), rtol=3e-4, atol=1e-6)
    if noise:
        close("max_sb", f(j.max_sb), r.max_sb, rtol=2e-3)
    # the rule, with the deviate of this library
    F = -flux if neg else flux
    fppj = f(j._flux_per_photon)
    ispoisson = n is None if poisson is None else poisson
    mod, g = flux / fppj**2, 1.0
    if ispoisson:
        mean = fppj**2 * flux
        ratio = (f(JG.PoissonDeviate(JG.BaseDeviate(seed), mean)()) - mean + flux) / flux
        g *= ratio
        mod *= ratio
    N = n
    if n is None:
        N = abs(mod)
        if noise:
            gf = 1.0 + noise / abs(f(j.max_sb))
            N /= gf
            g *= gf
    if abs(N + 0.5 - round(N + 0.5)) < 1e-6 and n is None:
        raise Inconclusive("rounding tie")
    want = int(N + 0.5)
    kw = {}
    if n is not None:
        kw["n_photons"] = n
    if noise is not None:
        kw["max_extra_noise"] = noise
    if poisson is not None:
        kw["poisson_flux"] = poisson
    p = j.makePhot(rng=JG.BaseDeviate(seed), **kw)
    equal("number of photons", len(p), want)
    if not ispoisson and (n is not None or abs(N % 1 - 0.5) > 0.01 + 2e-3 * N):
        equal("GalSim's number of photons", len(r.makePhot(rng=RG.BaseDeviate(seed), **kw)), want)
    if want == 0:
        label("zero photons")
        return True
    fl = np.asarray(p.flux)
    RT = 3e-4 if has_neg(spec) else 1e-8  # interpolants' tabulated fluxes
    tot = (f(j.positive_flux) + f(j.negative_flux)) * g / want
    if has_signed(spec):
        tot = abs(r.shoot(16, RG.BaseDeviate(1)).flux[0]) * 16 * g / want
    close("flux of each photon", np.abs(fl), np.full(want, abs(tot)), rtol=RT, atol=1e-12)
    if not has_neg(spec):
        close("total flux", f(p.getTotalFlux()), F * g, rtol=1e-9)
        require(np.all(np.sign(fl) == np.sign(F * g)) or g == 0, "photons of the wrong sign")
    elif not has_signed(spec):
        # the number of negative ones is binomial
        frac = np.mean(np.sign(fl) != np.sign(F * g)) if g else 0
        eta = (1 - fppj) / 2
        sd = math.sqrt(max(eta * (1 - eta), 1e-4) / want)
        require(abs(frac - eta) < 6.5 * sd + 1.0 / want, "fraction of negative photons %g, expected %g +- %g (%d photons)", frac, eta, sd, want)
    # drawImage uses the same numbers
    im = j.drawImage(nx=8, ny=8, scale=1.0, method="phot", rng=JG.BaseDeviate(seed), save_photons=True, dtype=float, **kw)
    equal("drawImage: number of photons", len(im.photons), want)
    close("drawImage: flux of each photon", np.abs(np.asarray(im.photons.flux)), np.full(want, abs(tot)), rtol=RT, atol=1e-12)
    label("poisson" if ispoisson else "fixed", "given n" if n is not None else "auto n", "negative photons" if has_neg(spec) else "positive")
    return True


# ------------------------------------------------------------------ radial distribution of single profiles
NR = 200000


@st.composite
def radcase(draw):
    d = draw(S.leaves(kinds=("Gaussian", "Exponential", "Moffat", "Spergel", "Box"), flux=S.posflux, spergel_nu=(-0.6, 3.5), moffat_beta=(1.3, 6.0)))
    return [d, draw(S.seeds), draw(st.sampled_from([None, None, 1e-4, 1e-3])), draw(st.sampled_from(["shoot", "makePhot", "_shoot"]))]


def ks(what, u, slack=0.0):
    """Kolmogorov-Smirnov distance of u from the uniform distribution on [0, 1]."""
    u = np.sort(u)
    n = len(u)
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    require(d * math.sqrt(n) < 3.6 + slack * math.sqrt(n), "%s: KS distance %g of %d photons (%g sigma)", what, d, n, d * math.sqrt(n))
    return d


def radial_cdf(spec):
    k, p = spec["leaf"], spec["p"]
    o = S.build(spec, RG)
    if k == "Gaussian":
        return lambda r: 1 - np.exp(-(r**2) / 2 / o.sigma**2)
    if k == "Exponential":
        return lambda r: 1 - (1 + r / o.scale_radius) * np.exp(-r / o.scale_radius)
    if k == "Moffat":
        return lambda r: 1 - (1 + (r / o.scale_radius) ** 2) ** (1 - o.beta)
    if k == "Spergel":
        from scipy.special import gamma, kv

        nu, s = p["nu"], o.scale_radius

        def cdf(r):
            z = np.maximum(r / s, 1e-12)
            return 1 - 2 * (1 + nu) * (z / 2) ** (nu + 1) * kv(nu + 1, z) / gamma(nu + 2)

        return cdf
    raise ValueError(k)


def radial(case):
    spec, seed, acc, how = case
    k = spec["leaf"]
    if k == "Moffat" and spec["p"]["beta"] < 1.6 and "scale_radius" not in spec["p"]:
        spec = {"leaf": k, "p": dict({a: b for a, b in spec["p"].items() if a in ("beta", "flux")}, scale_radius=1.1)}
    o = S.build(spec, JG, {"shoot_accuracy": acc} if acc else None)
    rng = JG.BaseDeviate(seed)
    if how == "_shoot":
        p = JG.PhotonArray(NR)
        o._shoot(p, rng)
    elif how == "shoot":
        p = o.shoot(NR, rng)
    else:
        p = o.makePhot(n_photons=NR, rng=rng)
    require(rng != JG.BaseDeviate(seed), "shooting did not use the generator given")
    x, y, fl = np.asarray(p.x), np.asarray(p.y), np.asarray(p.flux)
    require(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "not finite")
    equal("number", len(x), NR)
    close("flux of each photon", fl, np.full(NR, spec["p"]["flux"] / NR), rtol=1e-12)
    if k == "Box":
        w, h = spec["p"]["width"], spec["p"]["height"]
        require(np.max(np.abs(x)) <= w / 2 and np.max(np.abs(y)) <= h / 2, "photon outside the box")
        ks("x", x / w + 0.5)
        ks("y", y / h + 0.5)
        ks("dependence of x and y", ((x / w + 0.5) + (y / h + 0.5)) % 1.0)
    else:
        r = np.hypot(x, y)
        u = np.clip(radial_cdf(spec)(r), 0, 1)
        slack = 2 * (acc or 1e-5) + (2e-3 if k == "Spergel" and spec["p"]["nu"] < -0.3 else 0)
        ks("radius", u, slack)
        th = (np.arctan2(y, x) / 2 / np.pi) % 1.0
        ks("angle", th)
        ks("dependence of radius and angle", (u + th) % 1.0, slack)
        ks("angle of the outer photons", th[u > 0.9])
        if k == "Moffat":
            # far tail: no truncation
            n = np.sum(u > 1 - 1e-3)
            require(abs(n - 1e-3 * NR) < 7 * math.sqrt(1e-3 * NR), "%d photons beyond the 99.9%% radius", n)
    label(k, how)
    return True


# ------------------------------------------------------------------ 2-d distribution of expressions
NX, NP = 16, 20000
HIGH = dict(folding_threshold=1e-3, maxk_threshold=5e-4, maximum_fft_size=8192)


@st.composite
def shapecase(draw, ii=True):
    t = tame(draw(trees(2, ii=ii)))
    how = draw(st.sampled_from(["drawImage", "drawImage", "maxN", "fixed", "photon_op", "makePhot"]))
    d = dict(t=t, how=how, seed=draw(S.seeds), scale=draw(st.sampled_from([0.4, 0.7])), maxN=draw(st.sampled_from([3000, 7001, 19999, 20000, 50000])))
    if how == "photon_op":
        d["op"] = draw(st.one_of(S.leaves(kinds=("Gaussian", "Moffat", "Exponential", "Box"), flux=st.just(1.0), size=S.fl(0.5, 1.4, 3), moffat_beta=(2.5, 5.0)),
                                 S.leaves(kinds=("Gaussian", "Box"), flux=st.just(1.0), size=S.fl(0.5, 1.4, 3)).map(
                                     lambda x: {"on": x, "ops": [["shift", 0.7, -0.4], ["transform", 1.2, 0.3, -0.2, 0.8]]})))
    if how in ("drawImage", "maxN", "fixed") and draw(st.booleans()):
        d["jac"] = draw(S.jacobians(0.8, 1.2, 0.4))
        d["jac"] = [round(v * d["scale"], 6) for v in d["jac"]]
    if draw(st.booleans()):
        d["offset"] = draw(st.sampled_from([[0.4, -1.7], [-2.25, 0.8]]))
    if how in ("maxN", "fixed") and any(x["leaf"] == "Spergel" for x in leaf_list(t)):
        d["how"] = "drawImage"  # a minute of compilation otherwise
    return d


def expected(obj, wcs, offset):
    im = RG.ImageD(NX, NX)
    kw = {} if offset is None else {"offset": offset}
    obj.drawImage(im, wcs=wcs, method="auto", **kw)
    return im.array


def shape(case):
    spec, how, seed, scale = case["t"], case["how"], case["seed"], case["scale"]
    j = build(spec, JG)
    r = build(spec, RG)
    if abs(r._flux_per_photon) < 0.2:
        raise Inconclusive("nearly cancelling")
    ref = build(spec, RG, HIGH)
    if "op" in case:
        jop, rop = build(case["op"], JG), build(case["op"], RG, HIGH)
        ref = RG.Convolve(ref, rop)
    if has_delta(spec):
        # the pixel makes it drawable; a bare point is hard to compare pixel by pixel
        delta_soft = RG.Gaussian(sigma=0.35, gsparams=RG.GSParams(**HIGH))
        j = JG.Convolve(j, JG.Gaussian(sigma=0.35))
        ref = RG.Convolve(ref, delta_soft)
    jac = case.get("jac")
    off = case.get("offset")
    jw = JG.JacobianWCS(*jac) if jac else JG.PixelScale(scale)
    rw = RG.JacobianWCS(*jac) if jac else RG.PixelScale(scale)
    factor = 1.0
    rough = any(x["leaf"] in ("Box", "Pixel", "Spergel") for x in leaf_list(spec) + leaf_list(case.get("op", spec)))
    if rough and has_neg(spec):
        raise Inconclusive("no affordable expectation")
    if rough or has_signed(spec):
        # sharp edges and cusps: GalSim's photons, many more of them
        ref2 = build(spec, RG)
        if "op" in case:
            ref2 = RG.Convolve(ref2, rop)
        if has_delta(spec):
            ref2 = RG.Convolve(ref2, RG.Gaussian(sigma=0.35))
        ir = RG.ImageD(NX, NX)
        M = 400000
        ref2.drawImage(ir, wcs=rw, method="phot", n_photons=M, rng=RG.BaseDeviate(seed), **({"offset": off} if off else {}))
        E = ir.array
        factor = 1.0 + NP / M
    else:
        try:
            E = expected(ref, rw, off)
        except RG.GalSimError:
            raise Inconclusive("reference cannot draw it")
    kw = dict(method="phot", n_photons=NP, rng=JG.BaseDeviate(seed))
    if off is not None:
        kw["offset"] = tuple(off)
    im = JG.ImageD(NX, NX)
    if how == "makePhot":
        p = j.makePhot(n_photons=NP, rng=JG.BaseDeviate(seed))
        x, y, fl = np.asarray(p.x) / scale, np.asarray(p.y) / scale, np.asarray(p.flux)
        ox, oy = off or (0.0, 0.0)
        cx = (NX + 1) / 2.0
        ix, iy = np.floor(x + cx + ox + 0.5).astype(int), np.floor(y + cx + oy + 0.5).astype(int)
        ok = (ix >= 1) & (ix <= NX) & (iy >= 1) & (iy <= NX)
        A = np.zeros((NX, NX))
        np.add.at(A, (iy[ok] - 1, ix[ok] - 1), fl[ok])
    else:
        if how == "maxN":
            kw["maxN"] = case["maxN"]
        if how == "photon_op":
            kw["photon_ops"] = [jop]
        if how == "fixed":
            with JG.photon_array.fixed_photon_array_size(25000 if case["maxN"] > 10000 else case["maxN"]):
                j.drawImage(im, wcs=jw, **kw)
        else:
            j.drawImage(im, wcs=jw, **kw)
        A = np.asarray(im.array)
        close("added_flux is the flux in the image", f(im.added_flux), A.sum(), rtol=1e-9, atol=1e-9)
    compare(A, E, r, spec, factor)
    label(how, "negative photons" if has_neg(spec) else "positive", "wcs" if jac else "scale", "offset" if off else "centred")
    return True


def compare(A, E, r, spec, factor=1.0):
    tot = (r.positive_flux + r.negative_flux) * factor
    w = tot / NP  # |flux| of a photon
    # photon counts per pixel: positive and negative ones share the pixel
    if has_neg(spec):
        # bound: the photons of either sign cannot be fewer than the net flux and the negative ones sit anywhere
        extra = r.negative_flux
        varE = w * np.abs(E) + 2 * w * blur(np.abs(E)) + w * extra / 6.0
    else:
        varE = w * np.abs(E)
    sharp = any(x["leaf"] == "II" and x["p"]["interp"] == "nearest" for x in leaf_list(spec))  # ringing of the FFT
    sysm = (3 if sharp else 1) * 4e-3 * np.max(np.abs(E)) + 2e-3 * np.abs(E)
    sd = np.sqrt(varE + w * w * 4.0)
    z = (np.abs(A - E) - sysm) / sd
    require(np.max(z) < 7.0, "pixel %s: %g, expected %g +- %g", np.unravel_index(np.argmax(z), z.shape), A.ravel()[np.argmax(z)], E.ravel()[np.argmax(z)], sd.ravel()[np.argmax(z)])
    # the whole stamp, its halves and quarters, rows and columns
    n = NX // 2
    cum = [("stamp", np.ones_like(E, bool))]
    for nm, sl in (("left half", np.s_[:, :n]), ("lower half", np.s_[:n, :]), ("quarter", np.s_[:n, :n]), ("other quarter", np.s_[n:, :n]),
                   ("centre", np.s_[n - 3:n + 3, n - 3:n + 3])):
        m = np.zeros_like(E, bool)
        m[sl] = True
        cum.append((nm, m))
    for nm, m in cum:
        a, e = A[m].sum(), E[m].sum()
        # variance of a weighted binomial, at most w * (all flux of either sign there)
        var = w * tot if has_neg(spec) else w * abs(e)
        sysa = 8e-3 * tot
        require(abs(a - e) < 7.0 * math.sqrt(var) + sysa, "flux in the %s: %g, expected %g +- %g", nm, a, e, math.sqrt(var))
    if not has_neg(spec):
        # chi squared per pixel
        m = E > 20 * w
        if m.sum() > 20 and not sharp:
            c2 = np.sum((A[m] - E[m]) ** 2 / (w * E[m] + (5e-3 * E[m]) ** 2 + (2e-3 * E.max()) ** 2))
            k = m.sum()
            require(c2 < k + 8 * math.sqrt(2 * k) + 10, "chi squared %g for %d pixels", c2, k)
            # (too smooth is as wrong as too noisy)
            c3 = np.sum((A[m] - E[m]) ** 2 / (w * E[m]))
            require(c3 > k - 6.5 * math.sqrt(2 * k) - 0.5 * 42, "image is smoother than photon noise: chi squared %g for %d pixels", c3, k)


def blur(a):
    out = a.copy()
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            out = np.maximum(out, np.roll(np.roll(a, dx, 0), dy, 1))
    return out


# ------------------------------------------------------------------ drawing, exactly
@st.composite
def exactcase(draw):
    """A point source: every photon lands at the same place, so the image is known exactly."""
    d = dict(flux=draw(FLUX), shift=[draw(S.fl(-2, 2, 3)), draw(S.fl(-2, 2, 3))], neg=draw(st.booleans()),
             ops=draw(st.lists(S.ops(("shear", "dilate", "magnify", "transform", "mul", "shift", "lens")), max_size=2)),
             n=draw(st.sampled_from([None, 1, 7, 50, 200])), maxN=draw(st.sampled_from([None, None, 3, 10, 64])), fixed=draw(st.sampled_from([None, None, None, 40, 300])),
             gain=draw(st.sampled_from([1.0, 1.0, 2.5, 0.4])), add=draw(st.booleans()), dtype=draw(st.sampled_from(["D", "F", "D", "I", "S", "UI"])),
             bounds=draw(st.sampled_from([[1, 9, 1, 8], [-3, 4, 10, 18], [0, 6, 0, 6]])), seed=draw(S.seeds),
             where=draw(st.sampled_from(["scale", "wcs", "imagewcs"])), wcs=draw(S.wcses(("PixelScale", "JacobianWCS", "ShearWCS", "OffsetWCS", "AffineTransform"), (0.4, 1.5), 3.0)),
             noise=draw(st.sampled_from([None, None, None, 2.0])), poisson=draw(st.sampled_from([None, False, False])), place=draw(st.sampled_from(["none", "offset", "center", "utc", "both"])),
             off=[draw(S.fl(-2, 2, 2)), draw(S.fl(-2, 2, 2))], sensor=draw(st.booleans()), method=draw(st.sampled_from(["drawImage", "drawImage", "drawPhot"])))
    d["ops"] = [o for o in d["ops"]]
    return d


def drawn(d, G):
    o = G.DeltaFunction(flux=-d["flux"] if d["neg"] else d["flux"])
    o = o.shift(*d["shift"])
    for op in d["ops"]:
        o = S.apply_op(o, op, G)
    b = G.BoundsI(*d["bounds"])
    t = S.DTYPES[d["dtype"]]
    base = (np.arange((d["bounds"][1] - d["bounds"][0] + 1) * (d["bounds"][3] - d["bounds"][2] + 1)) % 11).reshape(
        d["bounds"][3] - d["bounds"][2] + 1, d["bounds"][1] - d["bounds"][0] + 1).astype(t)
    im = G.Image(np.array(base), xmin=b.xmin, ymin=b.ymin)
    kw = dict(rng=G.BaseDeviate(d["seed"]))
    if d["n"] is not None:
        kw["n_photons"] = d["n"]
    elif d["noise"]:
        kw["max_extra_noise"] = d["noise"]
    # only without Poisson noise is the result known
    kw["poisson_flux"] = False if (d["n"] is None or d["poisson"] is False) else None
    if d["maxN"]:
        kw["maxN"] = d["maxN"]
    if d["gain"] != 1.0:
        kw["gain"] = d["gain"]
    if d["sensor"]:
        kw["sensor"] = G.Sensor()
    kw["add_to_image"] = d["add"]
    if d["method"] == "drawPhot":
        im.wcs = G.PixelScale(d["wcs"].get("scale", 0.7))
        return o, im, lambda: o.drawPhot(im, **kw)
    w = S.make_wcs(d["wcs"], G)
    if d["where"] == "scale":
        kw["scale"] = d["wcs"].get("scale", 0.7)
    elif d["where"] == "wcs":
        kw["wcs"] = w
    else:
        im.wcs = w
    if d["place"] in ("offset", "both"):
        kw["offset"] = tuple(d["off"])
    if d["place"] in ("center", "both"):
        kw["center"] = G.PositionD((d["bounds"][0] + d["bounds"][1]) / 2 + d["off"][1] * 0.5, (d["bounds"][2] + d["bounds"][3]) / 2 - d["off"][0] * 0.5)
    if d["place"] == "utc":
        kw["use_true_center"] = False
    return o, im, lambda: o.drawImage(im, method="phot", save_photons=not d["maxN"], **kw)


def saved(d, rj, ij):
    if d["method"] != "drawPhot" and d["maxN"]:
        return np.zeros(0), np.zeros(0), np.zeros(0, bool)
    ph = rj[1] if d["method"] == "drawPhot" else ij.photons
    return np.asarray(ph.x), np.asarray(ph.y), np.asarray(ph.flux) != 0


def exact(case):
    d = case
    fixed = d["fixed"]
    if d["noise"]:
        # the largest surface brightness of a point is infinite or arbitrary: not a photon number question
        d = dict(d, noise=None)
    oj, ij, fj = drawn(d, JG)
    or_, ir, fr = drawn(d, RG)
    F = or_.flux
    if d["n"] is None and (abs(abs(F) % 1 - 0.5) < 1e-6 or abs(F) > 20000):
        raise Inconclusive("rounding tie")
    start = np.array(ir.array, dtype=float) if d["add"] else np.zeros(ir.array.shape)
    if d["dtype"] == "UI" and F < 0:
        raise Inconclusive("negative flux in an unsigned image")
    if d["dtype"] not in "DF" and (abs(F) / d["gain"] > 30000):
        raise Inconclusive("overflow")
    er = raises(fr)
    if er is not None:
        ej = raises(fj)
        require(ej is not None, "accepted, GalSim raises %r", er)
        return True
    if fixed and not d["maxN"] and d["method"] == "drawPhot":
        pass
    if fixed:
        with JG.photon_array.fixed_photon_array_size(fixed):
            rj = fj()
            px, py, nk = saved(d, rj, ij)
    else:
        rj = fj()
        px, py, nk = saved(d, rj, ij)
    if d["n"] is None and round(abs(F)) == 0:
        close("no photons", np.asarray(ij.array).astype(float), start, rtol=0)
        return True
    added = f(rj[0] if d["method"] == "drawPhot" else ij.added_flux)
    # position of the single point, from GalSim's photons
    phr = ir.photons if d["method"] == "drawImage" and not d["maxN"] else None
    if d["method"] == "drawImage" and d["maxN"]:
        qx = None
    elif phr is not None and len(phr):
        qx, qy = phr.x[0], phr.y[0]
        if nk.any():
            close("photon x", px[nk], np.full(nk.sum(), qx), atol=1e-7)
            close("photon y", py[nk], np.full(nk.sum(), qy), atol=1e-7)
        if min(abs(qx % 1 - 0.5), abs(qy % 1 - 0.5)) < 1e-6:
            raise Inconclusive("on a pixel edge")
    else:
        s = ir.scale
        qx, qy = or_.centroid.x / s, or_.centroid.y / s
        if min(abs(qx % 1 - 0.5), abs(qy % 1 - 0.5)) < 1e-6:
            raise Inconclusive("on a pixel edge")
        if nk.any():
            close("photon x", px[nk], np.full(nk.sum(), qx), atol=1e-7)
            close("photon y", py[nk], np.full(nk.sum(), qy), atol=1e-7)
    tol = dict(rtol=1e-9, atol=1e-9) if d["dtype"] == "D" else dict(rtol=1e-4, atol=1e-4)
    rr = ir.added_flux if d["method"] == "drawImage" else None
    if d["dtype"] in "DF":
        close("image", np.asarray(ij.array), ir.array, **tol)
        close("added_flux is what the image gained", added, float(np.sum(np.asarray(ij.array, dtype=float) - start)), rtol=1e-4 if d["dtype"] == "F" else 1e-9, atol=2e-3 if d["dtype"] == "F" else 1e-7)
    else:
        batches = 1 + (d["n"] or int(abs(F))) // min(d["maxN"] or 10**9, fixed or 10**9)
        # an integer image rounds each batch
        ends = np.abs(np.asarray(ij.array).astype(float) - ir.array.astype(float))
        if batches == 1:
            frac = abs(F / d["gain"]) * 2 % 1  # 0 at integers and half integers
            require(np.max(ends) <= (1 if min(frac, 1 - frac) < 1e-6 else 0), "image: %s, GalSim %s", np.asarray(ij.array), ir.array)
        else:
            require(np.max(ends) <= batches, "image: %s, GalSim %s", np.asarray(ij.array), ir.array)
    if rr is not None:
        close("added_flux", added, float(rr), rtol=1e-5 if d["dtype"] == "F" else 1e-9, atol=1e-6)
    inside = np.any(np.asarray(ij.array).astype(float) != start)
    if inside:
        close("all flux of a point inside the image", added, F / d["gain"], rtol=1e-5 if d["dtype"] == "F" else 1e-9)
    equal("type", np.asarray(ij.array).dtype, np.dtype(S.DTYPES[d["dtype"]]))
    label(d["method"], "batches" if d["maxN"] else "one batch", "padded" if fixed else "exact size", "inside" if inside else "outside", d["dtype"])
    return bool(inside)


# ------------------------------------------------------------------ batches: exact bookkeeping
@st.composite
def batchcase(draw):
    leaf = draw(st.sampled_from(["Box", "Pixel", "Gaussian", "Sum", "Conv"]))
    return dict(leaf=leaf, flux=draw(FLUX) * draw(st.sampled_from([1, -1])), n=draw(st.sampled_from([None, 11, 64, 65, 200])), maxN=draw(st.sampled_from([None, 1, 8, 13, 64, 100, 1000])),
                fixed=draw(st.sampled_from([None, None, 64, 150, 700])), seed=draw(S.seeds), add=draw(st.booleans()), gain=draw(st.sampled_from([1.0, 2.0])),
                off=[draw(S.fl(-1, 1, 2)), draw(S.fl(-1, 1, 2))], dt=draw(st.sampled_from("DDF")), small=draw(st.booleans()))


def batchobj(d):
    F = d["flux"]
    k = d["leaf"]
    if k == "Box":
        return JG.Box(2.0, 5.0, flux=F)
    if k == "Pixel":
        return JG.Pixel(3.0, flux=F).shear(g1=0.2, g2=-0.1)
    if k == "Gaussian":
        return JG.Gaussian(sigma=0.7, flux=F)
    if k == "Sum":
        return JG.Box(2.0, 1.0, flux=0.3 * F) + JG.Gaussian(sigma=0.5, flux=0.7 * F).shift(1.0, -1.0)
    return JG.Convolve(JG.Box(2.0, 1.0, flux=F), JG.Gaussian(sigma=0.4))


def batches(case):
    """Every photon is counted once, with its flux, whatever the batches and padding."""
    d = case
    o = batchobj(d)
    F = f(o.flux)
    n = d["n"]
    N = n if n is not None else int(abs(F) + 0.5)
    if n is None and abs(abs(F) % 1 - 0.5) < 1e-6:
        raise Inconclusive("rounding tie")
    nx = 5 if d["small"] else 33
    t = S.DTYPES[d["dt"]]
    base = np.arange(nx * nx).reshape(nx, nx).astype(t) if d["add"] else np.zeros((nx, nx), t)
    im = JG.Image(np.array(base), scale=0.6)
    kw = dict(method="phot", rng=JG.BaseDeviate(d["seed"]), poisson_flux=False, add_to_image=d["add"], offset=tuple(d["off"]), gain=d["gain"], save_photons=not d["maxN"])
    if n is not None:
        kw["n_photons"] = n
    if d["maxN"]:
        kw["maxN"] = d["maxN"]
    if d["fixed"]:
        if N > d["fixed"] and not d["maxN"]:
            pass
        with JG.photon_array.fixed_photon_array_size(d["fixed"]):
            o.drawImage(im, **kw)
            pf = None if d["maxN"] else np.asarray(im.photons.flux)
    else:
        o.drawImage(im, **kw)
        pf = None if d["maxN"] else np.asarray(im.photons.flux)
    got = np.asarray(im.array).astype(float) - base.astype(float)
    loose = 2e-4 if d["dt"] == "F" else 1e-8
    close("added_flux is what the image gained", f(im.added_flux), got.sum(), rtol=loose, atol=loose * (1 + abs(F) + (base.sum() if d["add"] else 0) * 1e-3))
    if N == 0:
        require(not got.any(), "flux without photons")
        return True
    w = F / d["gain"] / N
    k = got / w
    lim = 1e-6 if d["dt"] == "D" else 2e-3 + 1.2e-7 * (1100 + abs(F)) * max(1.0, np.max(np.abs(k))) / abs(w)
    if lim < 0.2:
        require(np.max(np.abs(k - np.round(k))) < max(lim, 1e-6 * np.max(np.abs(k))), "a pixel holds %g photons", k.ravel()[np.argmax(np.abs(k - np.round(k)))])
        require(np.min(np.round(k)) >= 0, "a negative number of photons")
        tot = np.round(k).sum()
        if d["small"]:
            require(tot <= N, "%d photons in the image, %d shot", tot, N)
        else:
            equal("photons in the image", tot, float(N))
    if not d["small"]:
        close("all the flux", f(im.added_flux), F / d["gain"], rtol=1e-6 if d["dt"] == "F" else 1e-10)
    # the last batch
    size = min(x for x in (d["maxN"], d["fixed"], N) if x)
    if pf is not None:
        live = pf[pf != 0]
        close("flux of the photons returned", live, np.full(len(live), w), rtol=1e-9)
        last = N % size or size
        equal("photons returned", len(live), last if size < N else N)
    label("batches" if size < N else "one batch", "padded" if d["fixed"] else "exact", d["leaf"])
    return True


# ------------------------------------------------------------------ Poisson flux statistics
@st.composite
def poissoncase(draw):
    return [draw(S.fl(3, 400, 1)), draw(st.integers(1, 10**6)), draw(st.sampled_from([None, "cubic"])), draw(st.sampled_from([1.0, 2.0]))]


def poisson(case):
    """Over many drawings the flux has mean and variance of a Poisson deviate, and so does each pixel."""
    flux, seed, negf, gain = case
    M = 400
    o = JG.Gaussian(sigma=0.5, flux=flux)
    if negf:
        # an interpolant with negative lobes
        o = JG.InterpolatedImage(JG.Image(stampim(7, 4, "blob"), scale=0.6), x_interpolant=negf, flux=flux)

    def one(rng, _):
        im = JG.ImageD(12, 12, scale=0.7)
        with JG.photon_array.fixed_photon_array_size(1024):
            o.drawImage(im, method="phot", rng=rng, gain=gain)
        return rng, im.added_flux

    F = np.asarray(jax.lax.scan(one, JG.BaseDeviate(seed), None, length=M)[1]) * gain
    m, v = F.mean(), F.var(ddof=1)
    tol = 6.5 * math.sqrt(flux / M) + 2e-3 * flux
    require(abs(m - flux) < tol, "mean flux %g, expected %g +- %g", m, flux, tol)
    # kurtosis of a Poisson: var(s^2) ~ flux^2 (2/M + 1/(flux M))
    tv = 6.5 * flux * math.sqrt(2.0 / M + 1.0 / flux / M) + 0.02 * flux
    require(abs(v - flux) < tv, "variance of the flux %g, expected %g +- %g", v, flux, tv)
    label("negative photons" if negf else "positive")
    return True


# ------------------------------------------------------------------ known findings
def negative(case):
    """The photons' mean flux and second moment against the profile's own (for the cases GalSim gets wrong)."""
    kind, seed = case
    if kind == "sum":
        o = JG.Gaussian(sigma=1.0, flux=90.0) - JG.Gaussian(sigma=2.0, flux=30.0)
        flux, m2 = 60.0, 90.0 - 30.0 * 4.0
    elif kind == "image":
        a = stampim(3, 8, "signed")
        o = JG.InterpolatedImage(JG.Image(a, scale=1.0), flux=90.0, x_interpolant="nearest", normalization="flux")
        y, x = np.mgrid[:8, :8] - 3.5
        flux, m2 = 90.0, 90.0 * (np.sum(a * x * x) / a.sum() + 1.0 / 12)
    else:
        o = JG.InterpolatedImage(JG.Image(-stampim(3, 8, "pos"), scale=1.0), flux=-90.0, x_interpolant="nearest")
        flux, m2 = -90.0, None
    N = 100000
    p = o.shoot(N, JG.BaseDeviate(seed))
    fl, x = np.asarray(p.flux), np.asarray(p.x)
    w = np.max(np.abs(fl))
    close("total flux", fl.sum(), flux, rtol=0, atol=7 * w * math.sqrt(N))
    if m2 is not None:
        close("second moment", (fl * x * x).sum(), m2, rtol=0, atol=7 * w * math.sqrt(np.sum(x**4)))
    return True


TESTS = [
    Test("numbers", numcase, numbers, 80, 3000, "photon number and flux agree with the rule"),
    Test("radial", radcase, radial, 48, 1500, "distribution of one profile compared with its analytic form"),
    Test("shape", shapecase, shape, 48, 2500, "2-d histogram compared with GalSim's Fourier drawing", cost=2.0),
    Test("exact", exactcase, exact, 120, 5000, "a point source landed inside the image"),
    Test("batches", batchcase, batches, 64, 4000, "photons counted one by one"),
    Test("poisson", poissoncase, poisson, 8, 200, "flux statistics over 400 drawings"),
    # only run on the recorded findings
    Test("negative", lambda: st.tuples(st.sampled_from(["sum", "image", "negimage"]), S.seeds), negative, 0, 0),
]
