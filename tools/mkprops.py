"""Writes properties.jsonl (the list is kept here as Python for readability)."""
import json
import os

D = "jax_galsim/"
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=[D + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop("C01", "Profile values in real and Fourier space equal the reference definition",
     "For every light profile a user can build (any supported base profile, with any size convention, sheared, rotated, scaled, shifted, flux-scaled, summed, subtracted, convolved or deconvolved in any nesting), the surface brightness at a point and the Fourier amplitude at a wavenumber equal those of the same GalSim expression, up to the stated accuracy of tabulated profiles.",
     ["inputs", "programs"], "all profile expressions over the supported profiles and transformations, all parameters in the supported ranges, all positions and wavenumbers including the origin, axes, tails and very small radii",
     "Tests evaluate a few fixed profiles at a few points, mostly one transformation deep; nested compositions and arbitrary parameters are not covered.",
     ["gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "deltafunction.py", "transform.py", "sum.py", "convolve.py", "gsobject.py", "bessel.py"],
     [("profile formulae", D + "{gaussian,exponential,moffat,spergel,box}.py: _xValue/_kValue"), ("composition", D + "transform.py: Transformation, sum.py: Sum, convolve.py: Convolution/Deconvolution")],
     observe_at=["GSObject.xValue", "GSObject.kValue"])
prop("C02", "Profile descriptors match GalSim and fit the profile they describe",
     "For every profile expression and accuracy settings, the reported flux, centroid, peak brightness, positive and negative flux, Fourier sampling step and range, size measures, symmetry and hardness flags, and recommended image sizes equal those GalSim reports for the same expression. Accuracy settings given to components combine to the most restrictive ones and reach every component, including after they are replaced.",
     ["inputs", "programs", "configurations"], "all profile expressions, all combinations of accuracy parameters on components and on the whole, all pixel scales",
     "Tests compare descriptors for isolated profiles with default accuracy settings; combinations of settings and nesting are not sampled.",
     ["gsobject.py", "gsparams.py", "gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "sum.py", "transform.py", "convolve.py"],
     [("descriptors", D + "*: _maxk,_stepk,_max_sb,_centroid,_positive_flux"), ("accuracy settings", D + "gsparams.py: combine/check/withParams; withGSParams in every profile")],
     observe_at=["maxk/stepk/flux/centroid/... properties", "withGSParams", "getGoodImageSize"])
prop("C03", "Drawn images equal GalSim's, pixel by pixel",
     "Drawing any profile onto any image or bounds, at any pixel scale or local distortion, with any offset, centring, method, gain, area/exposure scaling and output type, gives an image with the same bounds, coordinate system, pixel values and reported flux as GalSim's, whether it overwrites or adds to the image.",
     ["inputs", "configurations"], "profile expressions x draw methods (auto, fft, no_pixel, real_space, sb) x image/bounds/nx,ny/none x scale or WCS x offset/center/use_true_center x add_to_image x dtype",
     "Tests draw a few centred profiles on default stamps; off-centre, even/odd, distorted, added and integer images combine in far more ways than sampled.",
     ["gsobject.py", "core/draw.py", "core/wrap_image.py", "image.py", "wcs.py"],
     [("image set-up", D + "gsobject.py: _setup_image/_determine_wcs/_adjust_offset/_get_new_bounds"), ("FFT drawing", D + "gsobject.py: drawFFT*, core/draw.py, core/wrap_image.py"), ("direct drawing", D + "core/draw.py: draw_by_xValue")],
     observe_at=["GSObject.drawImage", "image.added_flux"])
prop("C04", "Fourier images, image FFTs and periodic wrapping equal GalSim's",
     "Drawing a profile in Fourier space onto any image, transforming an image to Fourier space and back, and folding an image periodically (including half-plane storage) give the same bounds, scale and values as GalSim; a forward then inverse transform restores the image.",
     ["inputs", "configurations"], "profile expressions x k-image shapes/bounds/scales x recentering; real and complex images with any even size, offset and dtype; all wrap regions",
     "Tests wrap and transform one or two square images; offsets, rectangular sizes and half-plane cases are barely sampled.",
     ["gsobject.py", "image.py", "core/draw.py", "core/wrap_image.py"],
     [("k drawing", D + "gsobject.py: drawKImage, core/draw.py: draw_by_kValue/apply_kImage_phases"), ("FFT", D + "image.py: calculate_fft/calculate_inverse_fft/wrap"), ("wrap loops", D + "core/wrap_image.py")],
     observe_at=["GSObject.drawKImage", "Image.calculate_fft", "Image.calculate_inverse_fft", "Image.wrap"])
prop("C05", "JAX transformations do not change results",
     "Passing any library object through a JAX flatten/unflatten, jit or vmap boundary keeps it equal to the original: every quantity computed inside a jit-compiled or vectorised function equals the one computed eagerly on the individual object, for traced parameters as well as constants.",
     ["programs", "inputs"], "all public pytree classes and nestings of them, all method results reachable under tracing, all parameter values, batch sizes",
     "Tests jit one fixed instance per class and compare a single method; parameter values, nested objects, empty/undefined objects and batched use are open.",
     ["core/utils.py", "gsobject.py", "transform.py", "sum.py", "convolve.py", "image.py", "bounds.py", "position.py", "angle.py", "shear.py", "celestial.py", "wcs.py", "fitswcs.py", "noise.py", "random.py", "photon_array.py", "interpolant.py", "interpolatedimage.py"],
     [("pytree registration", "tree_flatten/tree_unflatten of every class"), ("traced constructors", D + "core/utils.py: cast_to_float/cast_to_int/ensure_hashable")],
     observe_at=["jax.jit / jax.vmap / jax.tree_util round trips of public objects"])
prop("C06", "Automatic derivatives are the true derivatives",
     "Wherever the library documents differentiability, the derivative of a scalar computed from an image, profile value, coordinate map or noise-free statistic with respect to continuous parameters is finite and equals the numerical slope of the same function.",
     ["inputs", "programs"], "profile parameters, transformations, offsets, WCS parameters, interpolated images, coordinates and image arithmetic at generic points away from documented non-differentiable ones",
     "Tests check gradients for a few flux/size parameters at a single value.",
     ["core/math.py", "core/draw.py", "gsobject.py", "moffat.py", "spergel.py", "interpolatedimage.py", "transform.py", "shear.py", "celestial.py", "wcs.py", "bessel.py"],
     [("safe primitives", D + "core/math.py"), ("custom derivatives", D + "bessel.py: kv; fitswcs.py inversions; gsobject drawing")],
     observe_at=["jax.grad / jax.jvp of public API functions"])
prop("C07", "Image operations behave like a bounded pixel array, like GalSim's",
     "After any sequence of image operations (construction, arithmetic between images and scalars, reading and writing pixels and sub-images, shifting, recentring, filling, copying, flipping, transposing, dtype conversion, resizing) every image has the bounds, dtype, coordinate system and pixel values that GalSim's image has after the same sequence, and operations that must be refused (out of bounds, undefined, constant, wrong shape) are refused and leave the image unchanged.",
     ["histories", "inputs"], "all operation sequences over images of every dtype, shapes, origins",
     "Tests exercise operations one by one on a fixed small image; sequences on transformed, converted or shifted images are not sampled.",
     ["image.py", "bounds.py"],
     [("image state", D + "image.py: Image, _Image, arithmetic helpers"), ("bounds arithmetic", D + "bounds.py")],
     observe_at=["Image methods and operators"])
prop("C08", "Bounds and positions obey their algebra and match GalSim",
     "Any sequence of bounds and position operations (construction from corners, points or other bounds, union, intersection, extension, expansion, shift, containment, centre, area, comparison, integer/float conversion) gives the same defined/undefined state and the same numbers as GalSim, with union, intersection and containment forming the usual lattice, also when the coordinates are traced.",
     ["histories", "inputs"], "all operation sequences on integer and float bounds and positions, including undefined, empty and negative ones",
     "Tests sample a handful of constructors; undefined and mixed integer/float sequences are not explored.",
     ["bounds.py", "position.py"],
     [("bounds", D + "bounds.py: Bounds/_parse_args/BoundsI/BoundsD"), ("positions", D + "position.py")],
     observe_at=["Bounds*/Position* methods and operators"])
prop("C09", "Angles and shears convert and compose consistently",
     "Every way of writing an angle or a shear describes the same quantity as GalSim: unit conversions, wrapping, HMS/DMS text and arithmetic of angles round-trip, and shear conversions between g, e, eta, q and beta, the shear matrix, rotation, negation and composition agree with matrix algebra.",
     ["inputs"], "all angles and units, all shears with |g|<1 in every parametrisation, all compositions",
     "Tests convert a few fixed values; boundaries and repeated composition are not sampled.",
     ["angle.py", "shear.py"], [("angle", D + "angle.py: Angle/AngleUnit"), ("shear", D + "shear.py: Shear")],
     observe_at=["Angle, AngleUnit, Shear API"])
prop("C10", "Planar coordinate systems map, invert and transform consistently",
     "For every planar coordinate system, image-to-world and world-to-image are inverses and equal GalSim's for scalars and arrays; the local linearisation, pixel area, inverse, decomposition and shifted-origin forms agree with the map; converting profiles and shears between image and world applies exactly that local map.",
     ["inputs", "configurations"], "all six planar coordinate classes with any non-singular parameters, origins and positions; profile and shear conversion; sky images",
     "Tests check a few fixed coordinate systems at fixed positions.",
     ["wcs.py", "image.py"],
     [("maps", D + "wcs.py: _u/_v/_x/_y of each class"), ("local/inverse/shift", D + "wcs.py: local/jacobian/affine/shiftOrigin/withOrigin")],
     observe_at=["wcs.toWorld/toImage/local/..."])
prop("C11", "Sky coordinates and FITS projections agree with GalSim and invert",
     "Spherical distances, angles, areas, precession and frame conversions, tangent-plane style projections and the FITS world coordinate systems (all supported projections with distortions) give GalSim's answers, and each projection composed with its inverse returns the starting point.",
     ["inputs", "configurations"], "all sky points including poles and wrap-around, all projections and CD/PV/SIP/TNX-style headers with small distortions, all image positions near the reference pixel",
     "Tests read a few survey headers and compare at a few positions.",
     ["celestial.py", "fitswcs.py", "wcs.py"],
     [("spherical geometry", D + "celestial.py: CelestialCoord"), ("projection and distortion", D + "fitswcs.py: GSFitsWCS")],
     observe_at=["CelestialCoord methods", "GSFitsWCS.toWorld/toImage/local", "TanWCS", "FitsWCS"])
prop("C12", "FITS output is read back, and by GalSim, as the same image",
     "An image written to FITS (file, HDU or HDU list; with or without compression and extra header text) and read back has the same pixels, dtype, origin and coordinate system, and GalSim reading the file sees the same, and vice versa.",
     ["inputs", "configurations"], "all dtypes, shapes, origins, coordinate systems, multi-image files and compression choices the library supports",
     "Tests round-trip one image with a couple of coordinate systems.",
     ["fits.py", "wcs.py", "fitswcs.py", "_pyfits.py", "image.py"],
     [("wrappers", D + "fits.py"), ("header I/O", D + "wcs.py: readFromFitsHeader/writeToHeader/_writeHeader/_readHeader")],
     observe_at=["jax_galsim.fits.*", "Image.write", "wcs.writeToFitsHeader"])
prop("C13", "Random generators are deterministic, splittable streams",
     "A generator's outputs depend only on its seed and the draws made before: drawing values singly, in arrays, or discarding them, through any deviates sharing one generator, and after duplicating, resetting, clearing, serialising, pickling or crossing a JAX boundary, always yields the same continuing stream.",
     ["histories"], "all interleavings of draws, discards, duplicates, resets, serialisation and sharing over every deviate type",
     "Tests check a few draws in a fixed order per deviate class.",
     ["random.py"], [("stream state", D + "random.py: BaseDeviate/_State-style key handling"), ("deviates", D + "random.py: each Deviate class")],
     state=[dict(name="generator key", meaning="the JAX PRNG key shared by linked deviates")],
     observe_at=["BaseDeviate and subclasses"])
prop("C14", "Random deviates and noise models have their stated distributions",
     "Values drawn from each deviate follow the distribution it names with the stated parameters, and each noise model adds exactly noise of the variance it reports (Gaussian, Poisson, CCD, per-pixel, generic), changes nothing else, and obeys the variance scaling, multiplication, signal-to-noise and copying rules GalSim documents.",
     ["inputs", "histories"], "all parameter values of the deviates, all noise models and variance operations, float and integer images",
     "Tests check the mean and variance at one parameter point each.",
     ["random.py", "noise.py", "image.py"], [("deviates", D + "random.py"), ("noise", D + "noise.py; image.py: addNoise/addNoiseSNR")],
     observe_at=["deviate samples", "noise.applyTo", "Image.addNoise", "Image.addNoiseSNR"])
prop("C15", "Photon shooting reproduces the profile and accounts for all flux",
     "Photons shot from any profile are distributed as its surface brightness and their fluxes add up to its flux; drawing by photons puts every photon inside the image into its pixel, reports exactly the flux added, is unchanged by how photons are split into batches or padded to fixed sizes, and uses the photon number GalSim's rule gives.",
     ["inputs", "configurations", "programs"], "all profile expressions that can be shot, photon numbers, batch sizes, Poisson flux, gain, extra-noise settings, offsets, distortions and bounds",
     "Tests compare a few profiles on one stamp to loose tolerances.",
     ["gsobject.py", "core/draw.py", "photon_array.py", "sensor.py", "gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "sum.py", "transform.py", "convolve.py", "interpolant.py", "interpolatedimage.py"],
     [("photon number", D + "core/draw.py: calculate_n_photons"), ("shooting", "_shoot of each profile"), ("accumulation", D + "sensor.py, photon_array.py: addTo, gsobject.py: drawPhot/_draw_phot_while_loop")],
     observe_at=["GSObject.shoot/makePhot/drawImage(method='phot')"])
prop("C16", "Photon arrays keep photons together and ignore masked ones",
     "After any sequence of photon-array operations (setting fields, scaling, adding, assigning slices, copying, concatenating, convolving, optional wavelength/angle/pupil/time columns, file round trips) the live photons and their derived sums and images are those of GalSim's photon array, and padding photons of fixed-size arrays never contribute.",
     ["histories", "inputs", "configurations"], "all operation sequences, with and without fixed array sizes",
     "Tests check each method once on one array.",
     ["photon_array.py"], [("photon storage and masks", D + "photon_array.py: PhotonArray, fixed_photon_array_size")],
     observe_at=["PhotonArray API"])
prop("C17", "Interpolants and interpolated images reproduce GalSim's interpolation",
     "Every interpolation kernel has GalSim's real-space and Fourier-space values, ranges, integrals and fluxes; an interpolated image passes through its pixels (for interpolating kernels) and gives GalSim's values, flux, centroid and drawn images between them for any image, kernel, scale, coordinate system, offset, flux normalisation and further transformation.",
     ["inputs", "configurations"], "all kernels and orders, all images, scales, WCS, offsets, normalisations, transformations, points and wavenumbers",
     "The existing tests cover many fixed reference images, but only a few kernels, centred, with default options.",
     ["interpolant.py", "interpolatedimage.py"], [("kernels", D + "interpolant.py"), ("image interpolation", D + "interpolatedimage.py: _draw_with_interpolant_xval/kval, InterpolatedImage")],
     observe_at=["Interpolant.xval/kval/...", "InterpolatedImage.xValue/kValue/drawImage"])
prop("C18", "Numerical kernels meet their mathematical definitions",
     "Bessel and sine-integral functions, one-dimensional integration, root finding, Akima splines, polynomial evaluation and the small numeric utilities return the mathematically defined values for every argument in their documented domain, for scalars and arrays.",
     ["inputs"], "all orders and arguments in the documented domains including branch switch-overs and limits; all smooth integrands; all knots and polynomials",
     "Tests evaluate fixed grids and single functions.",
     ["bessel.py", "integ.py", "core/integrate.py", "core/interpolate.py", "core/utils.py", "utilities.py", "core/math.py"],
     [("special functions", D + "bessel.py"), ("quadrature", D + "integ.py, core/integrate.py"), ("splines/polynomials", D + "core/interpolate.py, utilities.py")],
     observe_at=["jax_galsim.bessel.*, integ.*, utilities.*"])
prop("C19", "Equality, copying, printing and conversion preserve objects",
     "Every object equals a copy, a pickled copy, an evaluation of its printed form, and its GalSim conversion and back; equal objects hash equally; objects that differ in any defining parameter compare unequal.",
     ["inputs", "programs"], "all public value classes with all parameters and nestings",
     "Tests check fixed instances with default parameters.",
     ["core/utils.py", "core/testing.py", "gsobject.py", "gsparams.py", "position.py", "bounds.py", "angle.py", "shear.py", "celestial.py", "wcs.py", "fitswcs.py", "noise.py", "random.py", "photon_array.py", "image.py", "interpolant.py", "interpolatedimage.py"],
     [("identity protocol", "__eq__/__hash__/__repr__/__getstate__/to_galsim/from_galsim of each class")],
     observe_at=["==, hash, repr, copy, pickle, to_galsim, from_galsim"])
prop("C20", "Invalid requests are refused the way GalSim refuses them",
     "Requests GalSim rejects (conflicting or missing sizes, invalid shears, undefined bounds, wrong image types, impossible draw options, unknown keywords, bad headers) are rejected with a GalSim-compatible error instead of returning a wrong result, and a rejected request leaves its arguments unchanged.",
     ["inputs"], "all single-fault mutations of valid calls over the public constructors and drawing methods",
     "Tests check a fixed list of bad calls per class.",
     ["gsobject.py", "image.py", "bounds.py", "shear.py", "wcs.py", "fitswcs.py", "gaussian.py", "exponential.py", "moffat.py", "spergel.py", "interpolatedimage.py", "noise.py", "photon_array.py", "errors.py"],
     [("argument checks", "constructors and drawImage/drawKImage/_setup_image"), ("errors", D + "errors.py")],
     observe_at=["exceptions raised by the public API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2
        f.write(json.dumps(p) + "\n")
