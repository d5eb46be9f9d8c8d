"""C20: invalid requests are refused the way the reference refuses them.

A request is a call written down as text: a receiver, positional and named arguments. A valid
request is changed in one or two places (an argument left out, one added that conflicts, an
unknown name, a value outside its domain, an object of the wrong kind) and made of both libraries.
What the reference refuses has to be refused, with an error a handler written for the reference
catches, and a refused request changes neither the receiver nor the arguments."""

import copy
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.core import Inconclusive, Test, Violation, label, require
from vlib.props import c19
from vlib.specs import JG, RG

# ------------------------------------------------------------------ catalogue
# C(name, call, receiver, valid, params)
#   call: attribute of the receiver ("" calls it), receiver: expressions; valid: lists of
#   (args, kwargs) templates that are fine; params: name -> expressions to use when adding or replacing.
CALLS = []


class Call:
    def __init__(self, name, recv, meth, valid, params, kinds=("drop", "add", "bad", "unknown", "extra")):
        self.name, self.recv, self.meth, self.valid, self.params, self.kinds = name, recv, meth, valid, params, kinds


def C(*a, **k):
    CALLS.append(Call(*a, **k))


V = lambda *a, **k: (list(a), dict(k))  # noqa: E731
NUM = ["1.5", "0.7"]
GSP = ["G.GSParams(folding_threshold=1e-3)"]
BADGSP = ["5", "'default'"]
GAL = ["G.Gaussian(sigma=1.2)", "G.Exponential(half_light_radius=0.8, flux=3.)", "G.Sum([G.Gaussian(sigma=1.), G.Box(1., 2.)])"]
NOTGAL = ["5", "'Gaussian'", "None", "G.Shear(g1=0.1)"]
NOTNUM = ["'a'", "[1., 2.]", "G.PositionD(1., 2.)"]

for cls, sz, more in (("Gaussian", ["sigma", "fwhm", "half_light_radius"], {}), ("Exponential", ["scale_radius", "half_light_radius"], {}),
                      ("Moffat", ["scale_radius", "fwhm", "half_light_radius"], {"beta": ["2.5", "3.5"]}),
                      ("Spergel", ["scale_radius", "half_light_radius"], {"nu": ["0.5", "-0.4", "2.3"]})):
    C(cls, ["G.%s" % cls], "", [V(**dict({k: v[0] for k, v in more.items()}, **{s: "1.5"})) for s in sz],
      dict({s: NUM for s in sz}, flux=["2."], gsparams=GSP + BADGSP, **{k: v + {"Moffat": ["1.05", "0.9", "-2."], "Spergel": ["-0.9", "4.5", "-2.", "100."]}[cls] for k, v in more.items()}))
C("Box", ["G.Box"], "", [V("1.5", "2."), V(width="1.5", height="2.")], dict(width=NUM, height=NUM, flux=["2."], gsparams=BADGSP))
C("Pixel", ["G.Pixel"], "", [V("1.5"), V(scale="1.5")], dict(scale=NUM, flux=["2."], gsparams=BADGSP, sigma=["1."]))
C("DeltaFunction", ["G.DeltaFunction"], "", [V(), V(flux="2.")], dict(flux=["2."], gsparams=BADGSP, sigma=["1."]))
C("Sum", ["G.Sum", "G.Add"], "", [V("[%s]" % ", ".join(GAL[:2])), V(*GAL[:2])], dict(gsparams=BADGSP, propagate_gsparams=["True", "False"], flux=["1."], POS=NOTGAL + ["[G.Gaussian(sigma=1.), 3]", "[]"]))
C("Convolve", ["G.Convolve", "G.Convolution"], "", [V("[%s]" % ", ".join(GAL[:2]), real_space="False"), V(*GAL[:2], real_space="False")],
  dict(gsparams=BADGSP, propagate_gsparams=["True", "False"], flux=["1."], real_space=["False"], POS=NOTGAL + ["[G.Gaussian(sigma=1.), 3]", "[]"]))
C("Deconvolve", ["G.Deconvolve", "G.Deconvolution"], "", [V(GAL[0])], dict(gsparams=BADGSP, propagate_gsparams=["True"], POS=NOTGAL, flux=["1."]))
C("Transform", ["G.Transform", "G.Transformation"], "", [V(GAL[0], jac="[1., 0.2, 0., 1.]"), V(GAL[1], offset="G.PositionD(1., 2.)", flux_ratio="2.")],
  dict(jac=["[1., 0.2, 0., 1.]"], offset=["G.PositionD(1., 2.)", "(0.3, 0.4)", "(1., 2., 3.)"], flux_ratio=["2."],
       gsparams=BADGSP, propagate_gsparams=["True"], POS=NOTGAL), kinds=("drop", "add", "bad", "unknown"))
C("GSParams", ["G.GSParams"], "", [V(folding_threshold="1e-3"), V(kvalue_accuracy="1e-4", maximum_fft_size="4096")],
  dict(folding_threshold=["1e-3"], nonsense=["1"], alias_threshold=["1e-3"], maximum_fft_size=["4096"]))
C("withParams", ["G.GSParams()"], "withParams", [V(folding_threshold="1e-3")], dict(nonsense=["1"], alias_threshold=["1e-3"]))

# transformations of a profile
PR = [GAL[0], GAL[2], "G.Gaussian(sigma=1.).shear(g1=0.2)"]
C("shear()", PR, "shear", [V("G.Shear(g1=0.1)"), V(g1="0.1", g2="0.2"), V(e="0.3", beta="0.4 * G.radians"), V(q="0.5", beta="0.4 * G.radians")],
  dict(g1=["0.1", "0.9", "1.2"], g2=["0.2", "-1.1"], e1=["0.1"], e=["0.3", "1.3", "-0.2"], q=["0.5", "1.5", "0.", "-0.3"], g=["0.3", "1.0", "-0.1"], beta=["0.4 * G.radians", "0.4"], eta=["0.4", "-0.3"], eta1=["0.2"], POS=["0.1", "'x'", "(0.1, 0.2)", "None", "G.Gaussian(sigma=1.)"]))
C("rotate()", PR, "rotate", [V("0.3 * G.radians"), V(theta="0.3 * G.radians")], dict(theta=["0.3"], POS=["0.3", "'a'", "None", "G.PositionD(1., 2.)"]))
C("shift()", PR, "shift", [V("1.", "2."), V("G.PositionD(1., 2.)"), V("(1., 2.)"), V(dx="1.", dy="2.")], dict(dx=["1."], dy=["2."], dz=["1."], POS=["(1., 2., 3.)", "'abc'", "1."]))
C("dilate()", PR, "dilate", [V("1.5")], dict(scale=["1.5"], POS=["'a'"]))
C("lens()", PR, "lens", [V("0.1", "0.2", "1.2")], dict(g1=["0.1"], mu=["1.2"], POS=["1.2"]))
C("transform()", PR, "transform", [V("1.", "0.1", "0.2", "1.")], dict(dudx=["1."], POS=["0.7"]))
C("withGSParams()", PR, "withGSParams", [V("G.GSParams(folding_threshold=1e-3)"), V(folding_threshold="1e-3")], dict(gsparams=BADGSP, nonsense=["1"], POS=BADGSP))
C("profile + x", PR, "__add__", [V(GAL[1])], dict(POS=["5", "'a'", "G.Shear(g1=0.1)"]), kinds=("bad",))
C("kValue()", PR, "kValue", [V("1.", "2."), V("G.PositionD(1., 2.)"), V(kx="1.", ky="2.")], dict(kx=["1."], x=["1."], POS=["(1., 2., 3.)", "1.", "'abc'"]))
C("xValue()", PR, "xValue", [V("1.", "2."), V("G.PositionD(1., 2.)"), V(x="1.", y="2.")], dict(kx=["1."], x=["1."], POS=["(1., 2., 3.)", "1.", "'abc'"]))
C("xValue of a convolution", ["G.Convolve(G.Gaussian(sigma=1.), G.Exponential(scale_radius=1.), real_space=False)", "G.Deconvolve(G.Gaussian(sigma=1.))", "G.DeltaFunction()"], "xValue", [V("1.", "2."), V("0.", "0.")], dict(POS=["'a'"]), kinds=("none",))
C("getGoodImageSize", PR, "getGoodImageSize", [V("0.3")], dict(pixel_scale=["0.3"], POS=["'a'"], nonsense=["1"]))

# angles, shears, positions, bounds
ANG = ["0.4 * G.radians", "G.Angle(30., G.degrees)"]
C("Angle", ["G.Angle"], "", [V("1.5", "G.radians"), V("1.5", unit="G.degrees"), V(ANG[0])], dict(unit=["G.degrees", "5", "'degrees'", "None"], POS=["G.radians", "'degrees'"], nonsense=["1"]))
C("AngleUnit", ["G.AngleUnit"], "", [V("1.5")], dict(POS=["G.radians", "'a'"], nonsense=["1"]))
for op in ("__add__", "__sub__", "__mul__", "__truediv__"):
    C("angle " + op, ANG, op, [V("2.") if op in ("__mul__", "__truediv__") else V(ANG[1])], dict(POS=["1.", "G.degrees", "'a'", ANG[0], "G.Shear(g1=0.1)", "None"]), kinds=("bad",))
C("angle /", ANG, "__truediv__", [V("G.degrees"), V(ANG[1])], dict(POS=["'a'", "None"]), kinds=("bad",))
C("unit *", ["G.degrees"], "__mul__", [V("2.")], dict(POS=["'a'", "G.radians", ANG[0]]), kinds=("bad",))
C("unit /", ["G.degrees"], "__truediv__", [V("G.radians")], dict(POS=["'a'", "2.", ANG[0]]), kinds=("bad",))
C("angle <", ANG, "__lt__", [V(ANG[1])], dict(POS=["1.", "'a'"]), kinds=("bad",))
C("wrap()", ANG, "wrap", [V(), V(ANG[1])], dict(POS=["1.", "'a'"]))
for f in ("hms", "dms"):
    C(f, ANG, f, [V(), V(sep="'dms'"), V(prec="3"), V(plus_sign="True")], dict(sep=["'::x'", "'abcd'", "5", "'ab'", "''", "':'"], prec=["3", "0", "'a'"], nonsense=["1"]))
    C("from_" + f, ["G.Angle"], "from_" + f, [V("'12:13:14'"), V("'-1:02:03.5'")], dict(POS=["5", "'abc'", "None", "''", "'1:2:3:4'"]))
C("Shear", ["G.Shear"], "", [V(), V(g1="0.1", g2="0.2"), V(e1="0.1"), V(eta1="0.3", eta2="0.1"), V(g="0.2", beta=ANG[0]), V(e="0.2", beta=ANG[0]), V(q="0.4", beta=ANG[0]), V(eta="0.4", beta=ANG[0]), V("G.Shear(g1=0.1)"), V("0.1 + 0.2j")],
  dict(g1=["0.1", "1.0", "-1.5"], g2=["0.2", "0.99"], e1=["0.1", "1.1"], e2=["0.3", "-1.5"], eta1=["0.3"], eta2=["0.4"], g=["0.2", "1.1", "-0.2"], e=["0.2", "1.1", "-0.2"], q=["0.5", "0.", "1.2", "-1."], eta=["0.4", "-0.4"], beta=[ANG[0], "0.3", "'a'"], POS=["0.1", "'a'", "(0.1, 0.2)", "1.2 + 0.1j"], nonsense=["1"]))
SH = ["G.Shear(g1=0.1, g2=0.2)", "G.Shear()"]
for op in ("__add__", "__sub__"):
    C("shear " + op, SH, op, [V(SH[0])], dict(POS=["1.", "'a'", ANG[0], "None"]), kinds=("bad",))
for P, n in (("PositionD", "1.5"), ("PositionI", "3")):
    C(P, ["G." + P], "", [V(n, n), V("(%s, %s)" % (n, n)), V("G.PositionD(1., 2.)"), V(x=n, y=n), V()], dict(x=["1", "1.5", "'a'"], y=["2", "2.5"], z=["1"], POS=["1.5", "'a'", "(1, 2, 3)", "'1.5'", "None"]))
PO = ["G.PositionD(1., 2.)", "G.PositionI(1, 2)"]
for op, ok, bad in (("__add__", PO[0], ["1.", "'a'", "(1., 2.)", ANG[0]]), ("__sub__", PO[0], ["1.", "'a'", "(1., 2.)"]), ("__mul__", "2", ["'a'", PO[0], "(1, 2)"]), ("__truediv__", "2", ["'a'", PO[0]])):
    C("position " + op, PO, op, [V(ok)], dict(POS=bad + (["1.5"] if op == "__mul__" else [])), kinds=("bad",))
C("position.shear", PO, "shear", [V(SH[0])], dict(POS=["0.1", "'a'", "None"]))
for B, n in (("BoundsD", ["1.5", "9.5", "-2.5", "8."]), ("BoundsI", ["1", "9", "-2", "8"])):
    P = B.replace("Bounds", "Position")
    C(B, ["G." + B], "", [V(*n), V(xmin=n[0], xmax=n[1], ymin=n[2], ymax=n[3]), V("G.%s(1, 2)" % P, "G.%s(4, 5)" % P), V("G.%s(1, 2)" % P), V(), V("G.BoundsI(1, 2, 3, 4)"), V("(1, 2)", "(4, 3)")],
      dict(xmin=["1", "1.5"], xmax=["9", "'a'"], ymin=["2"], ymax=["7", "7.5"], zmin=["2"], POS=["'a'", "1.5", "7", "None", "(1, 2, 3)"]))
BO = ["G.BoundsI(1, 9, -2, 8)", "G.BoundsD(1.5, 9., -2., 8.)", "G.BoundsI()", "G.BoundsD()"]
C("bounds &", BO, "__and__", [V("G.BoundsI(3, 12, 0, 20)")], dict(POS=["5", "'a'", "G.PositionI(1, 2)", "None", "G.BoundsD(1., 2., 3., 4.)"]), kinds=("bad", "none"))
C("bounds +", BO, "__add__", [V("G.BoundsI(3, 12, 0, 20)"), V("G.PositionI(3, 12)")], dict(POS=["5", "'a'", "None", "G.Shear(g1=0.1)"]), kinds=("bad", "none"))
C("includes", BO, "includes", [V("G.PositionD(3., 2.)"), V("3", "2"), V("G.BoundsI(3, 4, 5, 6)")], dict(POS=["5", "'a'", "None", "(1, 2, 3)"], x=["1"]))
C("expand", BO, "expand", [V("1.5"), V("1.5", "2.")], dict(factor_x=["1."], POS=["'a'"], nonsense=["1"]))
C("withBorder", BO, "withBorder", [V("2"), V("2", "3"), V(dx="2", dy="1")], dict(dx=["2", "1.5"], dy=["1"], POS=["'a'", "1.5"], nonsense=["1"]))
C("bounds.shift", BO, "shift", [V("1", "2"), V("G.PositionI(1, 2)"), V("G.PositionD(1., 2.)"), V(dx="1", dy="2")], dict(POS=["'a'", "1.5", "(1, 2, 3)", "None"], dx=["1"], nonsense=["1"]))
C("numpyShape", BO, "numpyShape", [V()], dict(POS=["1"]), kinds=("none", "extra"))
C("area", BO, "area", [V()], dict(POS=["1"]), kinds=("none", "extra"))

# images
IM = ["G.ImageF(5, 4, scale=0.5)", "G.ImageD(5, 4, xmin=-2, ymin=3, wcs=G.JacobianWCS(0.3, 0.1, 0., 0.4))", "G.ImageI(5, 4)", "G.ImageF()", "G.ImageD(np.arange(20.).reshape(4, 5), make_const=True)", "G.ImageCD(5, 4)", "G.ImageS(np.arange(20).reshape(4, 5))"]
C("Image", ["G.Image", "G.ImageD", "G.ImageI"], "", [V("5", "4"), V(ncol="5", nrow="4", xmin="-2", ymin="3"), V("G.BoundsI(1, 5, 1, 4)"), V("np.zeros((4, 5))"), V("np.zeros((4, 5))", xmin="2"), V(bounds="G.BoundsI(1, 5, 1, 4)", init_value="2."), V("G.ImageD(5, 4)"), V(), V("np.zeros((4, 5))", bounds="G.BoundsI(1, 5, 1, 4)")],
  dict(ncol=["5", "5.5", "'a'"], nrow=["4", "3.2"], xmin=["2"], ymin=["2"], bounds=["G.BoundsI(1, 5, 1, 4)", "G.BoundsI(1, 6, 1, 4)", "G.BoundsI(1, 5, 1, 7)", "G.BoundsD(1., 5., 1., 4.)", "5"], array=["np.zeros((4, 5))", "5", "'a'", "[[1, 2], [3, 4]]"],
       image=["G.ImageD(5, 4)", "np.zeros((4, 5))"], init_value=["3."], scale=["0.5"], wcs=["G.PixelScale(0.5)", "0.5", "'a'", "G.Shear(g1=0.1)"], dtype=["np.float64", "np.float32", "np.int64", "np.int8", "bool", "str"], copy=["True"], nonsense=["1"], POS=["5.5", "'a'", "None", "G.BoundsD(1., 2., 3., 4.)", "np.zeros(5)", "np.zeros((2, 2), dtype=bool)", "np.zeros((2, 2, 2))"]))
IDX = ["G.PositionI(2, 3)", "G.PositionI(99, 3)", "G.BoundsI(1, 99, 1, 2)", "G.BoundsI(2, 3, 3, 4)", "G.BoundsI()", "(2, 3)", "(99, 3)", "(2, -77)", "(1, 2, 3)", "'a'", "5", "None", "G.PositionD(2.5, 3.)", "G.BoundsD(2., 3., 3., 4.)"]
C("image[...]", IM, "__getitem__", [V("G.PositionI(2, 3)"), V("G.BoundsI(1, 2, 3, 4)")], dict(POS=IDX), kinds=("bad", "none"))
C("image[...] = x", IM, "__setitem__", [V("G.PositionI(2, 3)", "7"), V("(1, 3)", "7"), V("G.BoundsI(1, 2, 3, 4)", "G.ImageF(2, 2, init_value=3)")], dict(POS=IDX + ["G.ImageF(3, 2)", "G.ImageF(2, 3)", "7"]), kinds=("bad", "none"))
C("image(x, y)", IM, "__call__", [V("2", "3"), V("G.PositionI(2, 3)"), V(x="2", y="3")], dict(POS=["99", "-50", "'a'", "G.PositionI(99, 3)", "(1, 2, 3)", "2.5"], x=["2", "99"], nonsense=["1"]))
C("getValue", IM, "getValue", [V("2", "3"), V(x="2", y="3")], dict(POS=["99", "-50", "'a'"], x=["2", "99"], nonsense=["1"]))
C("setValue", IM, "setValue", [V("2", "3", "7"), V("G.PositionI(2, 3)", "7"), V(x="2", y="3", value="7")], dict(POS=["99", "-50", "'a'", "G.PositionI(99, 3)"], x=["2", "99"], value=["7"], nonsense=["1"]))
C("addValue", IM, "addValue", [V("2", "3", "7"), V("G.PositionI(2, 3)", "7"), V(x="2", y="3", value="7")], dict(POS=["99", "-50", "'a'", "G.PositionI(99, 3)"], x=["2", "99"], value=["7"], nonsense=["1"]))
C("fill", IM, "fill", [V("7")], dict(value=["1"], POS=["'a'"]))
C("setZero", IM, "setZero", [V()], dict(POS=["1"]))
C("invertSelf", IM, "invertSelf", [V()], dict(POS=["1"]))
C("replaceNegative", IM[:3] + IM[4:5], "replaceNegative", [V(), V("1.")], dict(nonsense=["1"]))
C("resize", IM, "resize", [V("G.BoundsI(1, 8, 1, 9)"), V("G.BoundsI(1, 8, 1, 9)", wcs="G.PixelScale(2.)")], dict(wcs=["5", "'a'"], scale=["1."], POS=["5", "G.BoundsD(1., 2., 3., 4.)", "(3, 4)", "None"]))
C("subImage", IM, "subImage", [V("G.BoundsI(1, 2, 3, 4)")], dict(POS=IDX), kinds=("bad", "none", "extra"))
C("setSubImage", IM, "setSubImage", [V("G.BoundsI(1, 2, 3, 4)", "G.ImageF(2, 2, init_value=3)")], dict(POS=IDX + ["G.ImageF(3, 2)", "np.zeros((2, 2))"]), kinds=("bad", "none", "extra", "drop"))
C("copyFrom", IM, "copyFrom", [V("G.ImageF(5, 4, init_value=3)")], dict(POS=["G.ImageF(4, 5)", "5", "np.zeros((4, 5))", "None", "G.ImageF()", "G.ImageF(1, 1)"]), kinds=("bad", "none", "extra", "drop"))
C("image.shift", IM[:3] + IM[4:], "shift", [V("1", "2"), V("G.PositionI(1, 2)"), V(dx="1", dy="2")], dict(POS=["'a'", "(1, 2, 3)", "5"], dx=["1"], nonsense=["1"]))
for f in ("setCenter", "setOrigin"):
    C(f, IM, f, [V("1", "2"), V("G.PositionI(1, 2)")], dict(POS=["'a'", "(1, 2, 3)", "5"], nonsense=["1"]))
C("wrap", IM[:1] + IM[2:5], "wrap", [V("G.BoundsI(2, 3, 2, 3)"), V("G.BoundsI(1, 4, 1, 4)")], dict(hermitian=["'x'", "'y'", "'z'", "True", "1"], nonsense=["1"], POS=["5", "G.BoundsD(1., 2., 3., 4.)", "None", "G.BoundsI()", "G.BoundsI(-9, 9, 1, 2)"]))
C("wrap hermitian", ["G.ImageCD(G.BoundsI(0, 4, -4, 4))"], "wrap", [V("G.BoundsI(0, 2, -2, 1)", hermitian="'x'")], dict(hermitian=["'y'", "'z'", "1"], POS=["G.BoundsI(0, 2, -2, 2)", "G.BoundsI(-1, 2, -2, 1)", "G.BoundsI(1, 2, -2, 1)"]))
C("wrap hermitian y", ["G.ImageCD(G.BoundsI(-4, 4, 0, 4))"], "wrap", [V("G.BoundsI(-2, 1, 0, 2)", hermitian="'y'")], dict(hermitian=["'x'", "'z'"], POS=["G.BoundsI(-2, 2, 0, 2)", "G.BoundsI(-2, 1, -1, 2)", "G.BoundsI(-2, 1, 1, 2)"]))
C("calculate_fft", ["G.ImageD(4, 4, scale=0.3)", "G.ImageD(4, 4)", "G.ImageD()", "G.ImageD(4, 4, wcs=G.JacobianWCS(1., 0.1, 0., 1.))"], "calculate_fft", [V()], dict(POS=["1"]), kinds=("none", "extra"))
C("calculate_inverse_fft", ["G.ImageCD(G.BoundsI(0, 2, -2, 1), scale=0.3)", "G.ImageCD(G.BoundsI(0, 2, -2, 1))", "G.ImageCD(G.BoundsI(1, 3, 1, 4), scale=1.)", "G.ImageCD()", "G.ImageCD(G.BoundsI(0, 2, -2, 1), wcs=G.JacobianWCS(1., 0.1, 0., 1.))", "G.ImageCD(G.BoundsI(-3, 0, -2, 1), scale=1.)", "G.ImageCD(G.BoundsI(0, 2, 0, 5), scale=1.)"], "calculate_inverse_fft", [V()], dict(POS=["1"]), kinds=("none", "extra"))
C("good_fft_size", ["G.Image"], "good_fft_size", [V("17")], dict(POS=["'a'"]))
for op in ("__add__", "__sub__", "__mul__", "__truediv__", "__floordiv__", "__mod__", "__pow__", "__and__", "__or__", "__xor__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__", "__ior__", "__ixor__"):
    ints = op.strip("_").lstrip("i") in ("and", "or", "xor")
    C("image " + op, ["G.ImageF(5, 4, init_value=3)", "G.ImageD(np.arange(20.).reshape(4, 5), make_const=True)", "G.ImageI(5, 4, init_value=3)", "G.ImageF()", "G.ImageS(np.arange(20).reshape(4, 5))"], op, [V("G.ImageI(5, 4, init_value=2)"), V("2")],
      dict(POS=["G.ImageF(4, 5, init_value=2)", "G.ImageF(5, 4, init_value=2)", "'a'", "None", "G.ImageF()", "2.5", "G.ImageF(2, 2, init_value=1)", "G.ImageI(4, 5)"]), kinds=("bad", "none"))
for p in ("scale", "center", "true_center", "origin", "outer_bounds"):
    C("image." + p, IM, "?" + p, [V()], {}, kinds=("none",))

# drawing
DR = ["G.Gaussian(sigma=1.1, flux=20.)", "G.Exponential(half_light_radius=1.)", "G.Convolve(G.Gaussian(sigma=1.), G.Box(1., 2.), real_space=False)"]
IMS = ["G.ImageF(9, 8, scale=0.5)", "G.ImageF(9, 8)", "G.ImageF()", "G.ImageI(9, 8)", "G.ImageCF(9, 8)", "G.ImageF(np.ones((8, 9), dtype=np.float32), make_const=True)", "G.ImageD(9, 8, wcs=G.JacobianWCS(0.3, 0.1, 0., 0.4))", "np.zeros((8, 9))", "5"]
C("drawImage", DR, "drawImage",
  [V(nx="9", ny="8", scale="0.4"), V(image=IMS[0]), V(bounds="G.BoundsI(1, 9, 1, 8)", scale="0.4"), V(image=IMS[1], wcs="G.ShearWCS(0.4, G.Shear(g1=0.1))"), V(image=IMS[0], add_to_image="True"),
   V(nx="9", ny="8", scale="0.4", method="'phot'", rng="G.BaseDeviate(3)", n_photons="30"), V(nx="9", ny="8", scale="0.4", method="'no_pixel'")],
  dict(image=IMS, nx=["9", "8.5", "'a'"], ny=["8"], bounds=["G.BoundsI(1, 9, 1, 8)", "G.BoundsI()", "G.BoundsD(1., 5., 1., 4.)", "5"], scale=["0.4", "0."], wcs=["G.PixelScale(0.3)", "0.3", "'a'", "G.Shear(g1=0.1)"], dtype=["np.float32", "np.float64", "np.int8", "bool"],
       method=["'fft'", "'phot'", "'real_space'", "'sb'", "'no_pixel'", "'auto'", "'none'", "None", "3"], area=["2.", "'a'"], exptime=["3."], gain=["2."], add_to_image=["True"], center=["(4.5, 4.)", "G.PositionD(4., 4.)", "3", "(1., 2., 3.)"], use_true_center=["False"], offset=["(0.1, 0.2)", "3", "'a'"],
       n_photons=["30"], rng=["G.BaseDeviate(3)", "5", "'a'"], max_extra_noise=["0.1"], poisson_flux=["True", "False"], maxN=["10"], save_photons=["True"], sensor=["5"], photon_ops=["[5]"], surface_ops=["[]"], bandpass=["5"], setup_only=["True"], n_subsample=["3"], nonsense=["1"]))
KIMS = ["G.ImageCD(G.BoundsI(-4, 4, -4, 4), scale=0.3)", "G.ImageCF(9, 8, scale=0.3)", "G.ImageCD(9, 9)", "G.ImageF(9, 8, scale=0.3)", "G.ImageCD()", "G.ImageCD(9, 9, wcs=G.JacobianWCS(0.3, 0.1, 0., 0.4))", "np.zeros((8, 9), dtype=complex)", "5"]
C("drawKImage", DR, "drawKImage", [V(nx="9", ny="8", scale="0.4"), V(image=KIMS[0]), V(bounds="G.BoundsI(-4, 4, -4, 4)", scale="0.4"), V(image=KIMS[0], add_to_image="True")],
  dict(image=KIMS, nx=["9"], ny=["8"], bounds=["G.BoundsI(-4, 4, -4, 4)", "G.BoundsI()", "5"], scale=["0.4", "0.", "'a'"], add_to_image=["True"], recenter=["False"], bandpass=["5"], setup_only=["True"], nonsense=["1"], wcs=["G.PixelScale(0.3)"], dtype=["np.complex64"]))
C("makePhot", DR[:2], "makePhot", [V(n_photons="30", rng="G.BaseDeviate(3)"), V(rng="G.BaseDeviate(3)")], dict(n_photons=["30", "0"], rng=["5", "'a'"], max_extra_noise=["0.1"], poisson_flux=["True"], local_wcs=["5"], surface_ops=["[]"], nonsense=["1"]))
C("shoot", DR[:2], "shoot", [V("30"), V("30", "G.BaseDeviate(3)")], dict(rng=["5"], nonsense=["1"], POS=["-5"]))
C("drawPhot of a deconvolution", ["G.Deconvolve(G.Gaussian(sigma=1.))"], "drawImage", [V(nx="9", ny="8", scale="0.4", method="'phot'", n_photons="10", rng="G.BaseDeviate(3)"), V(nx="9", ny="8", scale="0.4", method="'real_space'"), V(nx="9", ny="8", scale="0.4", method="'sb'")], {}, kinds=("none",))

# coordinate systems
WC = ["G.PixelScale(0.3)", "G.OffsetWCS(0.3, G.PositionD(1., 2.))", "G.JacobianWCS(0.3, 0.1, 0., 0.4)", "G.AffineTransform(0.3, 0.1, 0., 0.4, G.PositionD(1., 2.))", "G.ShearWCS(0.3, G.Shear(g1=0.1))", "G.OffsetShearWCS(0.3, G.Shear(g1=0.1), G.PositionD(1., 2.))",
      "G.TanWCS(G.AffineTransform(0.3, 0.1, 0., 0.4, G.PositionD(1., 2.)), G.CelestialCoord(1. * G.radians, 0.3 * G.radians))"]
CO = "G.CelestialCoord(1. * G.radians, 0.3 * G.radians)"
C("PixelScale", ["G.PixelScale"], "", [V("0.3"), V(scale="0.3")], dict(scale=["0.3"], POS=["0.3"], origin=[PO[0]], nonsense=["1"]))
C("OffsetWCS", ["G.OffsetWCS"], "", [V("0.3"), V("0.3", origin=PO[0])], dict(origin=["5", "'a'", "(1, 2)", PO[1]], world_origin=[PO[0], "5", CO, PO[1], "(1, 2)"], nonsense=["1"], POS=["0.3"]))
C("ShearWCS", ["G.ShearWCS"], "", [V("0.3", SH[0]), V(scale="0.3", shear=SH[0])], dict(shear=["0.1", "'a'", "(0.1, 0.2)"], POS=["0.1"], nonsense=["1"], origin=[PO[0]]))
C("OffsetShearWCS", ["G.OffsetShearWCS"], "", [V("0.3", SH[0]), V("0.3", SH[0], origin=PO[0])], dict(shear=["0.1"], origin=["5", "(1, 2)", PO[1]], world_origin=[PO[0], "5", CO, PO[1]], nonsense=["1"], POS=["0.1"]))
C("JacobianWCS", ["G.JacobianWCS"], "", [V("0.3", "0.1", "0.", "0.4"), V(dudx="0.3", dudy="0.1", dvdx="0.", dvdy="0.4")], dict(dudx=["0.3"], nonsense=["1"], origin=[PO[0]], POS=["0.3"]))
C("AffineTransform", ["G.AffineTransform"], "", [V("0.3", "0.1", "0.", "0.4"), V("0.3", "0.1", "0.", "0.4", origin=PO[0])], dict(origin=["5", "(1, 2)", PO[1]], world_origin=[PO[0], "5", CO], nonsense=["1"], POS=["0.3"]))
C("TanWCS", ["G.TanWCS"], "", [V(WC[3], CO), V(WC[3], CO, units="G.arcsec"), V("G.PixelScale(0.3)", CO)], dict(units=["G.degrees", "5", "'arcsec'"], world_origin=["5"], nonsense=["1"], POS=["5", "'a'", WC[6], PO[0]]))
for f, ok, bad in (("toWorld", PO[0], ["5", "'a'", "None", CO]), ("toImage", PO[0], ["5", "'a'", "None"]), ("posToWorld", PO[0], ["5", "'a'", "None", CO]), ("posToImage", PO[0], ["5", "'a'", "None"]), ("profileToWorld", GAL[0], ["5", "'a'"]), ("profileToImage", GAL[0], ["5", "'a'"]), ("shearToWorld", SH[0], ["5", "'a'"]), ("shearToImage", SH[0], ["5", "'a'"])):
    C("wcs." + f, WC, f, [V(ok)] + ([V(ok, image_pos=PO[0])] if f in ("profileToWorld", "shearToWorld", "profileToImage", "shearToImage") else []), dict(POS=bad, image_pos=[PO[0], "5"], world_pos=[PO[0], CO, "5"], nonsense=["1"]), kinds=("none", "bad", "add", "drop", "extra", "unknown"))
for f in ("pixelArea", "minLinearScale", "maxLinearScale", "local", "jacobian"):
    C("wcs." + f, WC, f, [V(), V(image_pos=PO[0]), V(PO[0])], dict(image_pos=[PO[0], "5", "'a'"], world_pos=[PO[0], CO, "5"], POS=["5", "'a'"], nonsense=["1"]), kinds=("none", "bad", "add", "unknown"))
C("affine", WC, "affine", [V(image_pos=PO[0]), V()], dict(image_pos=["5"], world_pos=[PO[0], CO], nonsense=["1"]), kinds=("none", "bad", "add", "unknown"))
for f in ("withOrigin", "shiftOrigin"):
    C(f, WC, f, [V(PO[0]), V(PO[1])], dict(POS=["5", "'a'", "None"], world_origin=[PO[0], "5", CO, "'a'"], image_origin=[PO[0]], color=["5"], nonsense=["1"]), kinds=("none", "bad", "add", "drop", "unknown"))
C("inverse", WC, "inverse", [V()], {}, kinds=("none",))
C("getDecomposition", WC, "getDecomposition", [V()], {}, kinds=("none",))
C("isPixelScale", WC, "isPixelScale", [V()], dict(POS=["1"]), kinds=("extra",))

# sky
CS = [CO, "G.CelestialCoord(0.2 * G.radians, -0.7 * G.radians)"]
C("CelestialCoord", ["G.CelestialCoord"], "", [V("1. * G.radians", "0.3 * G.radians"), V(ra="1. * G.radians", dec="0.3 * G.radians"), V(CO)], dict(ra=["1.", "1. * G.radians"], dec=["0.3", "2. * G.radians", "0.3 * G.radians"], POS=["1.", "'a'", "-95. * G.degrees", "100. * G.degrees", "None"], nonsense=["1"]))
C("distanceTo", CS, "distanceTo", [V(CS[1])], dict(POS=["5", "'a'", PO[0], "None"]), kinds=("bad", "drop", "extra"))
for f in ("angleBetween", "area"):
    C(f, CS, f, [V(CS[1], CO)], dict(POS=["5", PO[0]]), kinds=("bad", "drop", "extra"))
C("project", CS, "project", [V(CS[1]), V(CS[1], projection="'lambert'")], dict(projection=["'gnomonic'", "'stereographic'", "'postel'", "'none'", "None", "5"], POS=["5", PO[0]], nonsense=["1"]))
C("deproject", CS, "deproject", [V("0.1 * G.radians", "0.2 * G.radians"), V("0.1 * G.radians", "0.2 * G.radians", projection="'lambert'")], dict(projection=["'gnomonic'", "'none'", "5"], POS=["0.1", "'a'", PO[0]], nonsense=["1"]))
C("project_rad", CS, "project_rad", [V("0.9", "0.2", "'lambert'")], dict(POS=["'none'", "None", "5"]), kinds=("bad", "drop"))
C("precess", CS, "precess", [V("2000", "1950")], dict(POS=["'a'"]), kinds=("drop", "extra"))

# interpolants and interpolated images
for k in ("Nearest", "Linear", "Cubic", "Quintic", "Delta", "SincInterpolant"):
    C(k, ["G." + k], "", [V()], dict(gsparams=BADGSP, nonsense=["1"], tol=["1e-4"]))
C("Lanczos", ["G.Lanczos"], "", [V("3"), V(n="5", conserve_dc="False")], dict(n=["0", "-2", "2.5", "'a'"], POS=["0", "-1", "2.5", "'a'"], gsparams=BADGSP, nonsense=["1"]), kinds=("drop", "add", "bad", "unknown"))
C("from_name", ["G.Interpolant"], "from_name", [V("'quintic'"), V("'lanczos3'")], dict(POS=["'none'", "'lanczosA'", "'lanczos'", "'lanczos-2'", "'lanczos0'", "''", "'lanczos3X'"], gsparams=BADGSP), kinds=("drop", "bad", "add", "unknown"))
C("xval", ["G.Quintic()", "G.Lanczos(3)"], "xval", [V("0.3"), V("np.array([0.1, 0.2])")], dict(POS=["np.zeros((2, 2))", "'a'"]), kinds=("bad",))
C("kval", ["G.Quintic()", "G.Lanczos(3)"], "kval", [V("0.3"), V("np.array([0.1, 0.2])")], dict(POS=["np.zeros((2, 2))", "'a'"]), kinds=("bad",))
II = ["G.ImageD(np.arange(1., 21.).reshape(4, 5), scale=0.4)", "G.ImageD(np.arange(1., 21.).reshape(4, 5))", "G.ImageI(5, 4, scale=1., init_value=2)", "G.ImageF()", "G.ImageF(5, 4, scale=1.)", "G.ImageCD(5, 4, scale=1., init_value=2)", "np.ones((3, 3))", "5", "G.ImageF(np.ones((4, 5), dtype=np.float32), make_const=True, scale=1.)"]
C("InterpolatedImage", ["G.InterpolatedImage"], "", [V(II[0]), V(II[1], scale="0.5"), V(II[1], wcs="G.ShearWCS(0.4, G.Shear(g1=0.1))", flux="5."), V(II[0], x_interpolant="'linear'", normalization="'sb'")],
  dict(POS=II, x_interpolant=["'cubic'", "'none'", "5", "G.Lanczos(3)"], k_interpolant=["'cubic'", "'none'"], scale=["0.5"], wcs=["G.PixelScale(0.2)", "5", "'a'"], normalization=["'flux'", "'none'", "'sb'"], flux=["5."], pad_factor=["2.", "0.", "-1."],
       offset=["(0.1, 0.2)"], gsparams=BADGSP, calculate_stepk=["False"], calculate_maxk=["False"], nonsense=["1"], hdu=["1"]))

# random numbers and noise
BD = ["G.BaseDeviate(7)", "G.UniformDeviate(7)", "G.GaussianDeviate(7, mean=1., sigma=2.)"]
for k, p in (("BaseDeviate", {}), ("UniformDeviate", {}), ("GaussianDeviate", dict(mean=["1."], sigma=["2.", "-1."])), ("BinomialDeviate", dict(N=["5"], p=["0.3"])), ("PoissonDeviate", dict(mean=["3."])), ("WeibullDeviate", dict(a=["1."], b=["2."])), ("GammaDeviate", dict(k=["1."], theta=["2."])), ("Chi2Deviate", dict(n=["3."]))):
    C(k, ["G." + k], "", [V("7"), V(BD[0])] + ([V("7", **{q: v[0] for q, v in p.items()})] if p else []), dict(p, POS=["'a'", "5.5", "G.Shear(g1=0.1)", "[1, 2]"], nonsense=["1"], seed=["5"]), kinds=("drop", "add", "bad", "unknown"))
for k in ("seed", "reset"):
    C(k, BD, k, [V("7")], dict(POS=["'a'", "5.5", "G.Shear(g1=0.1)"] if k == "reset" else ["'a'", "5.5"], nonsense=["1"]))
C("discard", BD, "discard", [V("3")], dict(POS=["'a'"]), kinds=("drop", "extra", "unknown"))
NZ = ["G.GaussianNoise(G.BaseDeviate(5), sigma=2.)", "G.PoissonNoise(G.BaseDeviate(5), sky_level=3.)", "G.CCDNoise(G.BaseDeviate(5), sky_level=3., gain=2., read_noise=1.)", "G.DeviateNoise(G.PoissonDeviate(5, mean=3.))", "G.VariableGaussianNoise(G.BaseDeviate(5), G.ImageF(5, 4, init_value=2))"]
RN = ["5", "'a'", "G.Shear(g1=0.1)"]
C("GaussianNoise", ["G.GaussianNoise"], "", [V("G.BaseDeviate(5)", sigma="2."), V(rng="G.BaseDeviate(5)")], dict(sigma=["-1.", "'a'"], POS=RN, rng=RN, nonsense=["1"]))
C("PoissonNoise", ["G.PoissonNoise"], "", [V("G.BaseDeviate(5)", sky_level="2.")], dict(sky_level=["-1."], POS=RN, rng=RN, nonsense=["1"]))
C("CCDNoise", ["G.CCDNoise"], "", [V("G.BaseDeviate(5)", sky_level="2.", gain="2.", read_noise="1.")], dict(sky_level=["-1."], gain=["0.", "-2."], POS=RN, rng=RN, nonsense=["1"]))
C("DeviateNoise", ["G.DeviateNoise"], "", [V("G.PoissonDeviate(5, mean=3.)")], dict(POS=RN + ["G.BaseDeviate(5)"], nonsense=["1"]))
C("VariableGaussianNoise", ["G.VariableGaussianNoise"], "", [V("G.BaseDeviate(5)", "G.ImageF(5, 4, init_value=2)")], dict(POS=RN + ["np.ones((4, 5))"], nonsense=["1"]))
C("applyTo", NZ, "applyTo", [V("G.ImageF(5, 4, init_value=2)")], dict(POS=["5", "np.ones((4, 5))", "G.ImageF()", "G.ImageF(4, 5)", "G.ImageF(3, 3)", "'a'", "G.ImageF(np.ones((4, 5), dtype=np.float32), make_const=True)", "G.ImageCD(5, 4)", "G.ImageF(10, 2)"]), kinds=("bad", "drop", "none"))
for f in ("withVariance", "withScaledVariance"):
    C(f, NZ, f, [V("2.")], dict(POS=["'a'"], nonsense=["1"]))
C("noise *", NZ, "__mul__", [V("2.")], dict(POS=["'a'"]), kinds=("bad",))
C("getVariance", NZ, "getVariance", [V()], dict(POS=["1"]), kinds=("none", "extra"))
IMN = ["G.ImageF(5, 4, init_value=2)", "G.ImageF()", "G.ImageF(np.ones((4, 5), dtype=np.float32), make_const=True)", "G.ImageI(5, 4)"]
C("addNoise", IMN, "addNoise", [V(z) for z in NZ[:3]], dict(POS=["5", "G.BaseDeviate(5)", "'a'", "None", NZ[3], NZ[4], "G.VariableGaussianNoise(G.BaseDeviate(5), G.ImageF(10, 2, init_value=2))"]), kinds=("bad", "none", "drop", "extra"))
C("addNoiseSNR", IMN, "addNoiseSNR", [V(z, "5.") for z in NZ[:3]] + [V(NZ[0], "5.", preserve_flux="True")], dict(POS=["5", "G.BaseDeviate(5)", NZ[3]], nonsense=["1"]), kinds=("bad", "none", "drop", "unknown"))

# photons
PA = ["G.PhotonArray(4, x=np.arange(4.), y=np.ones(4), flux=np.ones(4))", "G.PhotonArray(4)"]
C("PhotonArray", ["G.PhotonArray"], "", [V("4"), V("3", x="np.ones(3)", y="np.ones(3)", flux="np.ones(3)"), V("3", wavelength="np.ones(3)")], dict(POS=["'a'", "5"], x=["np.ones(7)", "np.ones(3)"], y=["np.ones(2)"], flux=["np.ones(5)"], dxdz=["np.ones(3)", "np.ones(5)"], wavelength=["np.ones(9)"], time=["np.ones(2)"], nonsense=["1"]))
C("fromArrays", ["G.PhotonArray"], "fromArrays", [V("np.ones(3)", "np.ones(3)", "np.ones(3)")], dict(POS=["np.ones(3)"], dxdz=["np.ones(3)"], dydz=["np.ones(3)"], nonsense=["1"]))
C("addTo", PA[:1], "addTo", [V("G.ImageF(5, 4, scale=1.)")], dict(POS=["G.ImageF()", "5", "np.ones((4, 5))"]), kinds=("bad", "drop", "none"))
C("convolve", PA[:1], "convolve", [V("G.PhotonArray(4, x=np.arange(4.), y=np.ones(4), flux=np.ones(4))")], dict(POS=["G.PhotonArray(3)", "5", "G.PhotonArray(9)"], rng=["G.BaseDeviate(5)"], nonsense=["1"]), kinds=("bad", "drop", "none", "unknown"))
C("makeFromImage", ["G.PhotonArray"], "makeFromImage", [V("G.ImageF(3, 3, scale=1., init_value=2.)", rng="G.BaseDeviate(5)")], dict(POS=["5", "G.ImageF()", "G.ImageF(3, 3, wcs=G.JacobianWCS(1., 0.1, 0., 1.), init_value=2.)", "G.ImageF(3, 3, init_value=2.)"], max_flux=["0.5", "0.", "-1."], rng=["5"], nonsense=["1"]))
for f, n in (("x", 4), ("flux", 4), ("dxdz", 4), ("wavelength", 4)):
    C("photons.%s = v" % f, PA, "=" + f, [V("np.arange(4.)"), V("2.")], dict(POS=["np.arange(3.)", "np.arange(9.)", "np.ones((2, 2))", "'a'"]), kinds=("bad",))
C("sensor.accumulate", ["G.Sensor()"], "accumulate", [V(PA[0], "G.ImageF(5, 4, scale=1.)")], dict(POS=["G.ImageF()", "5"], nonsense=["1"], resume=["True"]), kinds=("bad", "drop", "none", "unknown"))

# files: T is a scratch directory
C("fits.read", ["G.fits.read"], "", [V("T + '/good.fits'"), V("T + '/two.fits'", hdu="1")], dict(POS=["T + '/missing.fits'", "T + '/junk.fits'", "T + '/empty.fits'", "5"], hdu=["1", "7", "'a'"], compression=["'none'", "'auto'", "'bad'", "'gzip'", "'rice'"], hdu_list=["5"], dir=["T", "'/nonexistent'"], nonsense=["1"]))
C("fits.readMulti", ["G.fits.readMulti"], "", [V("T + '/two.fits'")], dict(POS=["T + '/missing.fits'", "T + '/junk.fits'", "5"], compression=["'none'", "'bad'"], nonsense=["1"]))
C("fits.readCube", ["G.fits.readCube"], "", [V("T + '/cube.fits'")], dict(POS=["T + '/missing.fits'", "T + '/good.fits'", "5"], compression=["'none'", "'bad'"], hdu=["3"], nonsense=["1"]))
OUT = "T + '/out.fits'"
C("fits.write", ["G.fits.write"], "", [V("G.ImageF(4, 3, scale=1.)", OUT), V("G.ImageS(4, 3)", OUT, compression="'none'")], dict(POS=["5", "T + '/a.fits'", "np.ones((3, 4))", "G.ImageF()", "T + '/nodir/x.fits'"], hdu_list=["5"], compression=["'bad'", "'auto'"], clobber=["False"], dir=["T + '/nodir2'"], nonsense=["1"]))
C("fits.writeMulti", ["G.fits.writeMulti"], "", [V("[G.ImageF(4, 3), G.ImageF(2, 2)]", OUT)], dict(POS=["[5]", "[]", "5", "[G.ImageF(4, 3), 5]", "[G.ImageF()]"], compression=["'bad'"], nonsense=["1"]))
C("fits.writeCube", ["G.fits.writeCube"], "", [V("[G.ImageF(4, 3), G.ImageF(4, 3)]", OUT)], dict(POS=["[5]", "[]", "5", "[G.ImageF(4, 3), G.ImageF(2, 3)]", "[G.ImageF(4, 3), 5]", "[G.ImageF()]"], compression=["'bad'"], nonsense=["1"]))
C("image.write", IM[:1] + IM[3:6], "write", [V(OUT)], dict(POS=["T + '/nodir/x.fits'"], compression=["'bad'", "'none'"], nonsense=["1"]))
C("FitsHeader", ["G.FitsHeader"], "", [V(), V("{'A': 1}"), V(header="{'A': 1}"), V(file_name="T + '/good.fits'"), V("T + '/good.fits'")], dict(POS=["5", "T + '/missing.fits'"], header=["{'B': 2}", "5"], file_name=["T + '/good.fits'", "T + '/missing.fits'"], hdu=["0", "9"], hdu_list=["5"], dir=["T"], compression=["'bad'"], text_file=["True"], nonsense=["1"]))
C("header[...]", ["G.FitsHeader({'A': 1, 'B': 2.5})"], "__getitem__", [V("'A'")], dict(POS=["'C'", "5"]), kinds=("bad",))
C("header.pop", ["G.FitsHeader({'A': 1, 'B': 2.5})"], "pop", [V("'A'")], dict(POS=["'C'"]), kinds=("bad",))
C("del header[...]", ["G.FitsHeader({'A': 1, 'B': 2.5})"], "__delitem__", [V("'A'")], dict(POS=["'C'", "'ZZZ'"]), kinds=("bad",))
H = "{'CTYPE1': 'RA---TAN', 'CTYPE2': 'DEC--TAN', 'CRPIX1': 3., 'CRPIX2': 4., 'CRVAL1': 30., 'CRVAL2': 20., 'CD1_1': 1e-4, 'CD1_2': 0., 'CD2_1': 0., 'CD2_2': 1e-4}"
BADH = [H.replace("'CRPIX1': 3., ", ""), H.replace("'CRVAL2': 20., ", ""), H.replace("TAN", "XYZ"), H.replace("'CTYPE1': 'RA---TAN', ", ""), H.replace("RA---TAN", "DEC--TAN"), H.replace("'CD1_1': 1e-4, ", "").replace("'CD1_2': 0., ", "").replace("'CD2_1': 0., ", "").replace(", 'CD2_2': 1e-4", ""), H.replace("RA---TAN", "FREQ----"), H.replace("DEC--TAN", "DEC--SIN"), "{}", H.replace("TAN", "TAN-SIP"), H.replace("TAN", "TPV")]
C("GSFitsWCS", ["G.GSFitsWCS"], "", [V(header="G.FitsHeader(%s)" % H)], dict(header=["G.FitsHeader(%s)" % h for h in BADH] + ["5"], file_name=["T + '/good.fits'", "T + '/missing.fits'"], origin=[PO[0], "5"], nonsense=["1"], compression=["'bad'"], hdu=["0"]))
C("FitsWCS", ["G.FitsWCS"], "", [V(header="G.FitsHeader(%s)" % H)], dict(header=["G.FitsHeader(%s)" % h for h in BADH] + ["5"], file_name=["T + '/good.fits'", "T + '/missing.fits'"], nonsense=["1"], compression=["'bad'"], hdu=["0"], suppress_warning=["True"]))



BY = {}
for _c in CALLS:
    while _c.name in BY:
        _c.name += "'"
    BY[_c.name] = _c


# ------------------------------------------------------------------ faults
def faults(c):
    """All (template, fault) pairs of a call."""
    out = []
    for vi, (args, kw) in enumerate(c.valid):
        if "none" in c.kinds or True:
            out.append([vi, ["none"]])
        if "drop" in c.kinds:
            out += [[vi, ["drop", i]] for i in range(len(args))] + [[vi, ["drop", k]] for k in kw]
        if "bad" in c.kinds:
            out += [[vi, ["bad", i, b]] for i in range(len(args)) for b in range(len(c.params.get("POS", [])))]
            out += [[vi, ["bad", k, b]] for k in kw for b in range(len(c.params.get(k, [])))]
        if "add" in c.kinds:
            out += [[vi, ["bad", k, b]] for k in c.params if k != "POS" and k not in kw and k != "nonsense" for b in range(len(c.params[k]))]
        if "unknown" in c.kinds:
            out.append([vi, ["unknown"]])
        if "extra" in c.kinds:
            out += [[vi, ["extra", b]] for b in range(len(c.params.get("POS", [])))]
    return out


def apply_fault(c, vi, fs):
    args, kw = list(c.valid[vi][0]), dict(c.valid[vi][1])
    for f in fs:
        if f[0] == "drop":
            if isinstance(f[1], int):
                if f[1] < len(args):
                    args.pop(f[1])
            else:
                kw.pop(f[1], None)
        elif f[0] == "bad":
            if isinstance(f[1], int):
                if f[1] < len(args):
                    args[f[1]] = c.params["POS"][f[2]]
            else:
                kw[f[1]] = c.params[f[1]][f[2]]
        elif f[0] == "unknown":
            kw["nonsense"] = "1"
        elif f[0] == "extra":
            args.append(c.params["POS"][f[1]])
    return args, kw


def prepare(T):
    import astropy.io.fits as pf

    RG.ImageF(4, 3, scale=1.0, init_value=2).write(T + "/good.fits")
    RG.fits.writeMulti([RG.ImageF(4, 3, init_value=1), RG.ImageF(2, 2, init_value=3)], T + "/two.fits")
    RG.fits.writeCube([RG.ImageF(4, 3, init_value=1), RG.ImageF(4, 3, init_value=3)], T + "/cube.fits")
    with open(T + "/junk.fits", "w") as f:
        f.write("this is not a FITS file\n" * 50)
    pf.PrimaryHDU().writeto(T + "/empty.fits")


def snapshot(x):
    """What a mutable object holds."""
    n = type(x).__name__
    if n.startswith("Image"):
        return ["image", np.asarray(x.array), str(np.dtype(x.dtype)), x.isconst, repr(x.bounds), repr(x.wcs)]
    if n.endswith("Deviate"):
        return ["rng", str(x.serialize())]
    if n.endswith("Noise"):
        return ["noise", str(x.rng.serialize()), repr(x)]
    if n == "PhotonArray":
        return ["photons"] + c19.o_phot(x)
    if n == "FitsHeader":
        return ["header", sorted((str(k), str(v)) for k, v in x.items())]
    if isinstance(x, np.ndarray):
        return ["array", x.copy()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snapshot(v) for v in x]
    return None


def unchanged(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def request(G, c, recv, args, kw, T):
    ns = dict(G=G, np=np, T=T)
    r = eval(recv, ns)
    a = [eval(x, ns) for x in args]
    k = {n: eval(x, ns) for n, x in kw.items()}
    before = [snapshot(r)] + [snapshot(x) for x in a] + [snapshot(x) for x in k.values()]

    def call():
        if c.meth.startswith("?"):
            return getattr(r, c.meth[1:])
        if c.meth.startswith("="):
            return setattr(r, c.meth[1:], *a)
        f = getattr(r, c.meth) if c.meth else r
        res = f(*a, **k)
        if res is NotImplemented:
            raise TypeError("unsupported operand")
        return res

    err = res = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            res = call()
        except Exception as e:  # noqa: BLE001
            err = e
    after = [snapshot(r)] + [snapshot(x) for x in a] + [snapshot(x) for x in k.values()]
    return err, before, after, res


FAMILIES = (RuntimeError, TypeError, ValueError, KeyError, IndexError, NotImplementedError, OSError, AttributeError, NameError)  # NameError: a string given as a seed is evaluated, in both


@st.composite
def reqcase(draw, names=None):
    c = draw(st.sampled_from([c for c in CALLS if names is None or c.name in names for _ in range(8 if c.name == "drawImage" else 2 if c.name == "drawKImage" else 1)]))
    fs = faults(c)
    vi, f = draw(st.sampled_from(fs))
    case = dict(call=c.name, recv=draw(st.integers(0, len(c.recv) - 1)), vi=vi, f=[f])
    if draw(st.integers(0, 3)) == 0:
        case["f"].append(draw(st.sampled_from([g for v, g in fs if v == vi])))
    return case


def text(c, recv, args, kw):
    return "%s%s(%s)" % (recv, "." + c.meth if c.meth else "", ", ".join(args + ["%s=%s" % i for i in kw.items()]))


# ------------------------------------------------------------------ tests
_T = []


def scratch():
    """A directory of this process, with a few small files in it, removed when the process ends."""
    if not _T or _T[0] != os.getpid():
        import atexit
        import shutil

        d = tempfile.mkdtemp(prefix="c20_")
        prepare(d)
        atexit.register(shutil.rmtree, d, ignore_errors=True)
        _T[:] = [os.getpid(), d]
    return _T[1]


def t_request(case):
    c = BY[case["call"]]
    args, kw = apply_fault(c, case["vi"], case["f"])
    recv = c.recv[case["recv"] % len(c.recv)]
    s = text(c, recv, args, kw)
    T = scratch()
    rerr, rb, ra, _ = request(RG, c, recv, args, kw, T)
    if rerr is None:
        raise Inconclusive("the reference accepts it")
    jerr, jb, ja, res = request(JG, c, recv, args, kw, T)
    require(jerr is not None, "%s is refused by the reference (%s: %s) and returns %s here" % (s, type(rerr).__name__, str(rerr)[:120], type(res).__name__))
    require(isinstance(jerr, FAMILIES + (type(rerr),)), "%s: the reference raises %s, here it is %s: %s" % (s, type(rerr).__name__, type(jerr).__name__, str(jerr)[:120]))
    if not unchanged(jb, ja):
        require(not unchanged(rb, ra), "%s is refused (%s: %s), but changes the receiver or an argument" % (s, type(jerr).__name__, str(jerr)[:120]))
    label("refused", c.name, type(jerr).__name__)


def group(pred):
    names = [c.name for c in CALLS if pred(c)]
    return lambda: reqcase(tuple(dict.fromkeys(names)))


_pos = {c.name: i for i, c in enumerate(CALLS)}
_drawn = lambda c: c.meth in ("drawImage", "drawKImage", "makePhot", "shoot", "addNoiseSNR") or c.name == "InterpolatedImage"  # noqa: E731
_prof = lambda c: c.name in _pos and _pos[c.name] <= max(i for n, i in _pos.items() if n.startswith("getGoodImageSize"))  # noqa: E731
_img = lambda c: _pos["Image"] <= _pos[c.name] <= max(i for n, i in _pos.items() if n.startswith("image.outer_bounds"))  # noqa: E731
_wcs = lambda c: _pos["PixelScale"] <= _pos[c.name] <= max(i for n, i in _pos.items() if n.startswith("precess"))  # noqa: E731
_rest = lambda c: not (_drawn(c) or _prof(c) or _img(c) or _wcs(c))  # noqa: E731


# ------------------------------------------------------------------ the image of an interpolated image
@st.composite
def iicase(draw):
    return dict(
        n=draw(st.integers(3, 7)), m=draw(st.integers(3, 7)), seed=draw(st.integers(0, 2**31)), dt=draw(st.sampled_from(["F", "D"])), const=draw(st.booleans()),
        norm=draw(st.sampled_from(["flux", "sb"])), flux=draw(st.sampled_from([None, 2.5])), scale=draw(st.sampled_from([0.3, 1.0])),
        how=draw(st.sampled_from(["closejit", "wrapjit", "fill", "zero", "value", "iadd", "draw"])),
    )


def t_iimage(case):
    """An interpolated image goes on describing the image it was made from, however that image is
    changed afterwards, and making one, in or out of a compiled function, changes nothing in it."""
    import jax

    rng = np.random.RandomState(case["seed"] % 2**32)
    a = rng.randint(1, 50, size=(case["m"], case["n"]))
    cls = getattr(JG, "Image" + case["dt"])
    im = cls(np.asarray(a, dtype=np.dtype(cls(2, 2).dtype)), scale=case["scale"], make_const=case["const"])
    kw = dict(normalization=case["norm"], x_interpolant="linear")
    if case["flux"] is not None:
        kw["flux"] = case["flux"]
    kw["calculate_stepk"] = kw["calculate_maxk"] = False
    ref = RG.InterpolatedImage(RG.ImageD(np.asarray(a, dtype=float), scale=case["scale"]), **kw)
    before = snapshot(im)
    pts = [(0.1, 0.05), (-0.4, 0.3), (0.35, -0.2)]
    want = [ref.xValue(*p) for p in pts]

    def values(ii):
        return [float(ii.xValue(*p)) for p in pts] + [float(ii.flux)]

    def same(got, what):
        for g, w in zip(got, want + [ref.flux]):
            require(abs(g - w) <= 1e-5 * max(1.0, abs(w)), "%s: %r, the reference has %r" % (what, got, want + [ref.flux]))

    if case["how"] == "wrapjit":
        same(np.asarray(jax.jit(lambda i: jax.numpy.array([JG.InterpolatedImage(i, **kw).xValue(*p) for p in pts] + [JG.InterpolatedImage(i, **kw).flux]))(im)).tolist(), "made in a compiled function")
    if case["how"] == "closejit":
        ii0 = JG.InterpolatedImage(im, **kw)
        same(np.asarray(jax.jit(lambda x: jax.numpy.array([(ii0 * x).xValue(*p) for p in pts] + [(ii0 * x).flux]))(1.0)).tolist(), "used in a compiled function")
        same(np.asarray(jax.jit(lambda x: jax.numpy.array([JG.InterpolatedImage(im, **kw).xValue(*p) * x for p in pts] + [JG.InterpolatedImage(im, **kw).flux * x]))(1.0)).tolist(), "made in a compiled function from an image it closes over")
        same(values(ii0), "after use in a compiled function")
    ii = JG.InterpolatedImage(im, **kw)
    same(values(ii), "made")
    require(unchanged(snapshot(im), before), "making an interpolated image changed the image: %r" % im)
    if not case["const"]:
        h = case["how"]
        if h == "fill":
            im.fill(3)
        elif h == "zero":
            im.setZero()
        elif h == "value":
            im.setValue(im.bounds.xmin, im.bounds.ymin, 99)
        elif h == "iadd":
            im += 7
        elif h == "draw":
            JG.Gaussian(sigma=1.0, flux=50.0).drawImage(image=im, method="no_pixel")
        # constructed lazily: nothing above has to have been evaluated before the change
        same(values(ii), "after the image was changed (%s)" % h)
        same(values(ii.withGSParams(folding_threshold=1e-2)), "a copy with other parameters after the image was changed (%s)" % h)
    label("interpolated image", case["how"], "const" if case["const"] else "mutable")


RULE = "the reference refuses the request"
TESTS = [
    Test("profiles", group(lambda c: _prof(c) and not _drawn(c)), t_request, 500, 3000, RULE, cost=1.0),
    Test("images", group(lambda c: _img(c) and not _drawn(c)), t_request, 900, 4000, RULE, cost=1.0),
    Test("wcs", group(lambda c: _wcs(c) and not _drawn(c)), t_request, 800, 4000, RULE, cost=1.0),
    Test("drawing", group(_drawn), t_request, 500, 2500, RULE, cost=2.0),
    Test("others", group(_rest), t_request, 900, 4000, RULE, cost=1.0),
    Test("iimage", iicase, t_iimage, 32, 400, "every case: values compared before and after a change of the image", cost=2.0),
]
