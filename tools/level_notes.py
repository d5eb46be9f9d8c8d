BASE = ("Seeded random search: shows the property on the generated cases only, never for all inputs. Trusts "
        "GalSim 2.8.5 (installed reference) where it is the oracle, NumPy/SciPy, and JAX on CPU in float64. ")
P = "property-based testing: "
N = {
 "C01": (P + "differential against GalSim over generated profile expressions", BASE + "Moffat Fourier values are tabulated, so they are compared to about 3e-5 of the flux; other profiles to 1e-8."),
 "C02": (P + "differential against GalSim over generated expressions and accuracy settings; metamorphic symmetry relation; reference model of the combination rule for accuracy settings", BASE + "maxk/stepk of tabulated profiles to the resolution of their tables."),
 "C03": (P + "differential of drawn images against GalSim over generated profiles, grids, coordinate systems and options", BASE + "Images of up to about 40 pixels a side; Fourier drawing compared to 1e-5 of the peak at GalSim's own accuracy settings."),
 "C04": (P + "differential against GalSim and round trips over generated Fourier images, transforms and foldings", BASE + "Images of up to about 64 pixels a side."),
 "C05": (P + "metamorphic relation (eager against flatten/unflatten, jit and vmap) over generated objects of every registered class", BASE + "Here eager JAX-GalSim is its own oracle."),
 "C06": (P + "differential of automatic derivatives against Richardson-extrapolated numerical slopes over generated functions", BASE + "Numerical slopes are good to about 1e-6 of the scale of the function; points within that of a kink are discarded and counted as inconclusive."),
 "C07": (P + "stateful model-based histories: the same generated sequence of operations on images of both libraries, compared after every step", BASE + "Images up to about 12 pixels a side, histories of up to 25 operations."),
 "C08": (P + "stateful histories against GalSim, lattice laws as algebraic invariants, traced against concrete", BASE),
 "C09": (P + "differential against GalSim, round trips and matrix algebra over generated angles and shears", BASE),
 "C10": (P + "differential against GalSim, inverse round trips, finite differences of the map against the local linearisation", BASE),
 "C11": (P + "differential against GalSim/LSSTDESC.Coord and round trips over generated headers, projections and sky positions", BASE + "Only headers the library supports; positions within 0.2 rad of the projection centre for distorted systems."),
 "C12": (P + "file round trips through both libraries in both directions over generated images, headers and containers", BASE + "Runs in a scratch directory it creates and removes."),
 "C13": (P + "stateful model-based histories: a pure model of the stream (a JAX key sequence computed independently) predicts every value", BASE),
 "C14": (P + "goodness-of-fit of generated distributions, exact models of each noise rule and differential against GalSim's variance algebra", BASE + "Statistical decisions use fixed seeds and thresholds of about 1e-9 per comparison, so that a run is deterministic and false alarms are negligible; deviations of less than about 1e-2 in distribution are invisible."),
 "C15": (P + "goodness-of-fit of shot photons against independent densities; photon-by-photon accounting; metamorphic splitting into batches and padding", BASE + "Statistical thresholds as in C14. Three findings about profiles of partly negative flux are recorded."),
 "C16": (P + "stateful model-based histories on photon arrays of both libraries; padding as a metamorphic relation", BASE),
 "C17": (P + "differential against GalSim over generated kernels, images and drawings; interpolation property; exact kernel definitions", BASE + "Lanczos Fourier values are tabulated by both libraries; compared to the tables' accuracy."),
 "C18": (P + "differential against mpmath-free independent definitions (SciPy, NumPy quadrature on closed forms) over generated arguments", BASE + "One finding recorded (integration limits beyond 1e4)."),
 "C19": (P + "round trips (copy, pickle, printed form, conversion, flattening) and single-value mutations judged by GalSim's own equality", BASE),
 "C20": (P + "single-fault mutation of valid requests, judged by whether GalSim refuses them; invariance of the arguments", BASE + "The exact exception class is compared only as far as the common GalSim base classes and TypeError/ValueError go."),
}
