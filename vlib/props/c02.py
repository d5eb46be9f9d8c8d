"""C02: profile descriptors and accuracy settings match the reference."""

import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, close, equal, label
from vlib.specs import JG, RG

GSP_NAMES = [
    "minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr",
    "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy", "table_spacing",
    "realspace_relerr", "realspace_abserr", "integration_relerr", "integration_abserr",
    "shoot_accuracy",
]


@st.composite
def cases(draw):
    return dict(
        tree=draw(S.trees(depth=2, deconv=True, gsp=draw(st.booleans()))),
        pix=draw(S.fl(0.05, 2.0, 3)),
    )


def kids(o):
    if hasattr(o, "obj_list"):
        return list(o.obj_list)
    if hasattr(o, "orig_obj"):
        return [o.orig_obj]
    if hasattr(o, "original") and o.original is not o:
        return [o.original]
    return []


def same_gsp(what, j, r):
    for n in GSP_NAMES:
        equal("%s.gsparams.%s" % (what, n), getattr(j.gsparams, n), getattr(r.gsparams, n))
    kj, kr = kids(j), kids(r)
    if len(kj) == len(kr):
        for i, (a, b) in enumerate(zip(kj, kr)):
            same_gsp("%s[%d]" % (what, i), a, b)


def descriptors(case):
    t = case["tree"]
    j, r = S.build(t, JG), S.build(t, RG)
    kinds = S.leaf_kinds(t)
    dec = S.has(t, "deconv")
    same_gsp("obj", j, r)
    tol = 1e-5 if "Spergel" in kinds else 1e-9
    ktol = 2e-3 if "Moffat" in kinds else tol
    fscale = abs(r.flux)

    def num(name, got, want, rtol, atol=0.0):
        want = float(want)
        if not np.isfinite(want) or abs(want) > 1e250:
            if np.isfinite(float(got)) and abs(float(got)) < 1e250:
                raise Violation("%s: got %r, reference %r" % (name, got, want))
            return
        close(name, float(got), want, rtol, atol)

    num("flux", j.flux, r.flux, 1e-9, 1e-10 * sumabs(r))
    delta = "DeltaFunction" in kinds
    well = fscale > 1e-3 * sumabs(r)
    if well:
        num("maxk", j.maxk, r.maxk, ktol)
        num("stepk", j.stepk, r.stepk, max(tol, ktol if dec else tol))
        num("nyquist_scale", j.nyquist_scale, r.nyquist_scale, ktol)
        c, d = j.centroid, r.centroid
        num("centroid.x", c.x, d.x, 1e-8, 1e-8)
        num("centroid.y", c.y, d.y, 1e-8, 1e-8)
        if not (delta and (S.has(t, "conv") or S.has(t, "sum") or S.has(t, "add") or S.has(t, "sub"))):
            num("max_sb", j.max_sb, r.max_sb, tol, 1e-9 * abs(r.flux) if not dec else 1e-6)
    if not dec:
        num("positive_flux", j.positive_flux, r.positive_flux, 1e-9, 1e-10 * sumabs(r))
        num("negative_flux", j.negative_flux, r.negative_flux, 1e-9, 1e-10 * sumabs(r))
        if well:
            num("_flux_per_photon", j._flux_per_photon, r._flux_per_photon, 1e-6)
    for n in ("has_hard_edges", "is_analytic_x", "is_analytic_k"):
        equal(n, bool(getattr(j, n)), bool(getattr(r, n)))
    if not S.nops(t):
        # exact equality of jacobian entries decides this flag under transformations
        equal("is_axisymmetric", bool(j.is_axisymmetric), bool(r.is_axisymmetric))
    if well and r.stepk < 1e100:
        # the size is a ceil: compare away from the switch-over
        lo, hi = (
            r.getGoodImageSize(case["pix"] * (1 + e)) for e in (1e-4, -1e-4)
        )
        g = int(j.getGoodImageSize(case["pix"]))
        if not lo <= g <= hi:
            raise Violation("getGoodImageSize: got %d, reference %d..%d" % (g, lo, hi))
    for k in set(kinds):
        label(k)
    if S.has(t, "topgsp") or "gsp" in str(t):
        label("gsparams")
    return True


def sumabs(o):
    ks = kids(o)
    if isinstance(o, RG.Sum):
        return sum(sumabs(k) for k in ks)
    if isinstance(o, RG.Convolution):
        return float(np.prod([sumabs(k) for k in ks]))
    if isinstance(o, RG.Transformation):
        return sumabs(o.original) * abs(o.flux_ratio) * abs(np.linalg.det(o.jac))
    return abs(o.flux)


# ------------------------------------------------------------ size measures
SIZES = {
    "Gaussian": ["sigma", "fwhm", "half_light_radius"],
    "Exponential": ["scale_radius", "half_light_radius"],
    "Moffat": ["beta", "trunc", "scale_radius", "half_light_radius", "fwhm"],
    "Spergel": ["nu", "scale_radius", "half_light_radius"],
    "Box": ["width", "height"],
    "Pixel": ["scale"],
    "DeltaFunction": [],
}


def leafcases():
    return st.tuples(
        S.leaves(size=st.one_of(S.sizes, S.fl(1e-3, 300.0)), moffat_beta=(1.11, 20.0),
                 spergel_nu=(-0.84, 3.99)),
        S.gsp_dicts(["folding_threshold", "maxk_threshold", "stepk_minimum_hlr", "xvalue_accuracy"]),
        S.fluxes, S.fl(0.05, 0.95, 3), S.fl(0.05, 5.0, 3),
    ).map(list)


def leaf_sizes(case):
    spec, gsp, newflux, frac, rad = case
    spec = dict(spec, gsp=gsp)
    k = spec["leaf"]
    j, r = S.build(spec, JG), S.build(spec, RG)
    for o, p in ((j, r), (j.withFlux(newflux), r.withFlux(newflux))):
        tol = 2e-6 if k == "Spergel" else 1e-9
        for n in SIZES[k]:
            close("%s.%s" % (k, n), float(getattr(o, n)), float(getattr(p, n)), tol)
        close("flux", float(o.flux), p.flux, 1e-12)
        same_gsp(k, o, p)
        ktol = 2e-3 if k == "Moffat" else tol
        if k != "DeltaFunction":
            close("maxk", float(o.maxk), p.maxk, ktol)
            close("stepk", float(o.stepk), p.stepk, 1e-5 if k == "Spergel" else 1e-8)
            close("max_sb", float(o.max_sb), p.max_sb, 1e-5 if k == "Spergel" else 1e-9)
    if k == "Spergel":
        close("calculateFluxRadius", float(j.calculateFluxRadius(frac)), r.calculateFluxRadius(frac), 1e-5)
        close("calculateIntegratedFlux", float(j.calculateIntegratedFlux(rad)), r.calculateIntegratedFlux(rad), 1e-6, 1e-9)
    label(k)
    return True


# ------------------------------------------------------------ circular symmetry
# matrices whose entries and products are exact, so that the flag is exact too
EXACT = [[1, 0, 0, 1], [0, -1, 1, 0], [0, 1, -1, 0], [-1, 0, 0, -1], [0, 1, 1, 0], [1, 0, 0, -1], [-1, 0, 0, 1],
         [2, 0, 0, 2], [0.5, -0.25, 0.25, 0.5], [0.5, 0.25, 0.25, 0.5], [1, 0.5, 0, 1], [1, 0.5, -0.5, 1], [1, -0.5, 0.5, 1],
         [0.5, 0, 0, 1], [1, 0.5, 0.5, -1], [0.5, 1, -1, 0.5], [1, 0.25, 0.5, 1]]


@st.composite
def symcases(draw, depth=2):
    k = draw(st.sampled_from(["leaf", "leaf", "sum", "conv", "deconv"])) if depth else "leaf"
    if k == "leaf":
        node = {"leaf": "Gaussian", "p": {"sigma": 1.0}}
        if not draw(st.integers(0, 2)):
            node = draw(S.leaves(("Box", "Exponential", "Pixel", "Moffat", "DeltaFunction"), moffat_beta=(2.5, 4.0)))
    elif k == "deconv":
        node = {"deconv": draw(symcases(depth - 1))}
    else:
        node = {k: draw(st.lists(symcases(depth - 1), min_size=1 if k == "sum" else 2, max_size=2))}
    ops = [["transform"] + m for m in draw(st.lists(st.sampled_from(EXACT), max_size=2))]
    sh = draw(st.sampled_from([None] * 9 + [[0.0, 0.5], [-1.0, 0.0], [0.5, -0.5], [0.0, 0.0]]))
    if sh:
        ops += [["shift"] + sh, ["mul", 2.0]] if draw(st.booleans()) else [["shift"] + sh]
    return {"on": node, "ops": ops} if ops else node


def symmetry(t):
    j, r = S.build(t, JG), S.build(t, RG)
    for n in ("is_axisymmetric", "has_hard_edges", "is_analytic_x", "is_analytic_k"):
        equal(n, bool(getattr(j, n)), bool(getattr(r, n)))
    label("symmetric" if r.is_axisymmetric else "not symmetric")
    return S.nops(t) > 0


# ------------------------------------------------------------ GSParams itself
def gspcases():
    return st.tuples(st.lists(S.gsp_dicts(maxn=6), min_size=1, max_size=4), S.gsp_dicts()).map(list)


def gsparams(case):
    ds, extra = case
    out = []
    for G in (JG, RG):
        gs = [G.GSParams(**d) for d in ds]
        c = G.GSParams.combine(gs)
        w = c.withParams(**extra)
        k = G.GSParams.check(None, c, **extra)
        k2 = G.GSParams.check(gs[0], c)
        out.append([[getattr(g, n) for n in GSP_NAMES] for g in gs + [c, w, k, k2]])
    equal("GSParams", out[0], out[1])
    g = JG.GSParams.from_galsim(RG.GSParams(**ds[0]))
    equal("from_galsim", g, JG.GSParams(**ds[0]))
    equal("to_galsim", JG.GSParams(**ds[0]).to_galsim(), RG.GSParams(**ds[0]))
    return len(ds) > 1 or bool(ds[0])


# ------------------------------------------------------------------ fluxes of both signs
@st.composite
def signcases(draw):
    n = draw(st.integers(2, 4))
    comp = [dict(kind=draw(st.sampled_from(["Gaussian", "Exponential", "Box", "Moffat", "Image", "Image", "Image"])),
                 flux=draw(st.sampled_from([1.0, -1.0, 2.5, -0.5, 40.0, -7.0, -3.0])),
                 r=draw(S.fl(0.3, 3.0, 2)),
                 dx=[draw(S.fl(-2, 2, 2)), draw(S.fl(-2, 2, 2))]) for _ in range(n)]
    return dict(comp=comp, how=draw(st.sampled_from(["sum", "sum", "conv", "sumconv", "convsum", "nested", "minus"])),
                scale=draw(st.sampled_from([1.0, 1.0, -2.0, 0.25])))


def signed(case):
    def mk(G):
        os = []
        for c in case["comp"]:
            if c["kind"] == "Image":
                a = np.array([[1.0, -2.0, 1.5], [2.0, 9.0, -1.0], [-0.5, 3.0, 1.0]])
                os.append(G.InterpolatedImage(G.Image(a, scale=c["r"]), flux=c["flux"], x_interpolant="linear")
                          .shift(*c["dx"]))
                continue
            par = {"Gaussian": "half_light_radius", "Exponential": "half_light_radius", "Box": "width",
                   "Moffat": "half_light_radius"}[c["kind"]]
            kw = {par: c["r"], "flux": c["flux"]}
            if c["kind"] == "Box":
                kw["height"] = 1.5 * c["r"]
            if c["kind"] == "Moffat":
                kw["beta"] = 3.0
            os.append(getattr(G, c["kind"])(**kw).shift(*c["dx"]))
        h = case["how"]
        if h == "sum":
            o = G.Sum(os)
        elif h == "conv":
            o = G.Convolve(os, real_space=False)
        elif h == "sumconv":
            o = G.Sum([os[0]] + [G.Convolve(os[1:] + [os[0]], real_space=False)])
        elif h == "convsum":
            o = G.Convolve([G.Sum(os), os[0]], real_space=False)
        elif h == "nested":
            o = os[0]
            for x in os[1:]:
                o = G.Sum([o, x])
        else:
            o = os[0]
            for x in os[1:]:
                o = o - x
        return o if case["scale"] == 1 else o * case["scale"]

    j, r = mk(JG), mk(RG)
    tot = abs(float(r.positive_flux)) + abs(float(r.negative_flux))
    tol = 1e-4 if any(c["kind"] == "Image" for c in case["comp"]) else 1e-9
    for n in ("positive_flux", "negative_flux", "flux"):
        close(n, float(getattr(j, n)), float(getattr(r, n)), tol, tol * tot)
    close("flux = positive - negative", float(j.flux), float(j.positive_flux) - float(j.negative_flux),
          tol, tol * tot)
    close("max_sb", float(j.max_sb), float(r.max_sb), 1e-6)
    if abs(r.flux) > 1e-3 * tot and abs(r.positive_flux + r.negative_flux) > 1e-3 * tot:
        close("_flux_per_photon", float(j._flux_per_photon), float(r._flux_per_photon), 10 * tol)
        for n in ("x", "y"):
            close("centroid." + n, float(getattr(j.centroid, n)), float(getattr(r.centroid, n)), 1e-7, 1e-7)
    label(case["how"])
    return len({np.sign(c["flux"]) for c in case["comp"]}) == 2


TESTS = [
    Test("signed", signcases, signed, 240, 8000, "components of both signs", cost=1.0),
    Test("descriptors", cases, descriptors, 500, 20000, "every case", cost=1.5),
    Test("leaf_sizes", leafcases, leaf_sizes, 300, 10000, "every case"),
    Test("symmetry", symcases, symmetry, 1200, 20000, "something is transformed", shards=4, cost=0.3),
    Test("gsparams", gspcases, gsparams, 200, 5000,
         "at least one setting differs from the default", shards=1, cost=0.01),
]
