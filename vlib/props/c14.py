"""C14: random deviates and noise models have their stated distributions."""

import math
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, close, equal, f, label, raises, require
from vlib.specs import DTYPES, JG, RG

warnings.filterwarnings("ignore")

# ------------------------------------------------------------------ distributions
# A deviation of more than NSIG standard errors (about 1e-11 for a normal statistic) counts.
NSIG = 7.0
N = 20000


def moments(d, p):
    """mean, variance, fourth central moment of the named distribution."""
    if d == "Uniform":
        return 0.5, 1 / 12.0, 1 / 80.0
    if d == "Gaussian":
        s = p["sigma"]
        return p["mean"], s * s, 3 * s**4
    if d == "Poisson":
        m = p["mean"]
        return m, m, m + 3 * m * m
    if d == "Binomial":
        n, q = p["N"], p["p"]
        v = n * q * (1 - q)
        return n * q, v, v * (1 + (3 * n - 6) * q * (1 - q))
    if d == "Gamma":
        k, t = p["k"], p["theta"]
        return k * t, k * t * t, (3 * k * k + 6 * k) * t**4
    if d == "Chi2":
        n = p["n"]
        return n, 2 * n, 12 * n * n + 48 * n
    a, b = p["a"], p["b"]  # Weibull
    g = [math.gamma(1 + i / a) for i in range(5)]
    m, v = g[1], g[2] - g[1] ** 2
    m4 = g[4] - 4 * g[1] * g[3] + 6 * g[1] ** 2 * g[2] - 3 * g[1] ** 4
    return m * b, v * b * b, m4 * b**4


def cdf(d, p, x):
    """P(X <= x), from first principles through scipy.special."""
    import scipy.special as sp

    if d == "Uniform":
        return np.clip(x, 0, 1)
    if d == "Gaussian":
        return sp.ndtr((x - p["mean"]) / p["sigma"])
    if d == "Poisson":
        return sp.pdtr(np.floor(x), p["mean"])
    if d == "Binomial":
        return sp.bdtr(np.floor(x), p["N"], p["p"])
    if d == "Gamma":
        return sp.gammainc(p["k"], np.maximum(x, 0) / p["theta"])
    if d == "Chi2":
        return sp.gammainc(p["n"] / 2, np.maximum(x, 0) / 2)
    return 1 - np.exp(-((np.maximum(x, 0) / p["b"]) ** p["a"]))


def ks(what, x, F, discrete):
    x = np.sort(x)
    n = len(x)
    if discrete:
        v, c = np.unique(x, return_counts=True)
        e = np.abs(np.cumsum(c) / n - F(v)).max()
    else:
        y = F(x)
        e = max(np.abs(np.arange(1, n + 1) / n - y).max(), np.abs(y - np.arange(n) / n).max())
    # P(sqrt(n) D > t) ~ 2 exp(-2 t^2); 4e-12 at 3.7
    if e * math.sqrt(n) > 3.7:
        raise Violation("%s: the empirical distribution of %d values is %.4f away from the named one" % (what, n, e))


def moment_check(what, x, m, v, m4):
    n = len(x)
    se = math.sqrt(v / n)
    d = abs(x.mean() - m)
    if d > NSIG * se + 1e-12 * (1 + abs(m)):
        raise Violation("%s: mean of %d values %.6g, expected %.6g +- %.2g" % (what, n, x.mean(), m, se))
    sv = math.sqrt(max(m4 - v * v, 0.0) / n) + v / n
    d = abs(((x - m) ** 2).mean() - v)
    if d > NSIG * sv + 1e-12 * (1 + v):
        raise Violation("%s: variance of %d values %.6g, expected %.6g +- %.2g"
                        % (what, n, ((x - m) ** 2).mean(), v, sv))


@st.composite
def devparams(draw):
    k = draw(st.sampled_from(["Uniform", "Gaussian", "Poisson", "Poisson", "Binomial", "Gamma", "Weibull", "Chi2"]))
    p = {}
    if k == "Gaussian":
        p = dict(mean=draw(S.fl(-50, 50, 2)), sigma=draw(st.one_of(S.fl(0.01, 40, 3), st.just(1.0))))
    elif k == "Poisson":
        p = dict(mean=draw(st.one_of(S.fl(0.0, 4, 3), S.fl(4, 200, 2), st.sampled_from([0.0, 9.9, 10.0, 1e3, 131071.0, 131072.0, 3e5, 1e8]))))
    elif k == "Binomial":
        p = dict(N=draw(st.sampled_from([1, 2, 5, 13])), p=draw(st.one_of(S.fl(0, 1, 3), st.sampled_from([0.0, 1.0, 0.5]))))
    elif k == "Gamma":
        p = dict(k=draw(st.one_of(S.fl(0.2, 1.2, 3), S.fl(1, 30, 2))), theta=draw(S.fl(0.05, 8, 3)))
    elif k == "Weibull":
        p = dict(a=draw(S.fl(0.5, 6, 3)), b=draw(S.fl(0.05, 8, 3)))
    elif k == "Chi2":
        p = dict(n=draw(st.one_of(S.fl(0.4, 3, 3), S.fl(1, 40, 2))))
    return [k, p]


@st.composite
def distcase(draw):
    return [draw(devparams()), draw(S.seeds), draw(st.sampled_from(["generate", "generate", "add", "jit", "special"]))]


@jax.jit
def jitgen(d, a):
    return d.generate(a)


BINS = {}


def distribution(case):
    (k, p), seed, how = case
    d = getattr(JG, k + "Deviate")(seed, **p)
    r = getattr(RG, k + "Deviate")(seed, **p)
    for n in p:
        close("%sDeviate.%s" % (k, n), f(getattr(d, "n" if n == "N" else n)), getattr(r, "n" if n == "N" else n), rtol=1e-14)
    n = N if k not in ("Binomial",) else N // 2
    z = np.zeros(n)
    if how == "jit":
        x = jitgen(d, z)
    elif how == "add":
        x = d.add_generate(z + 3.0) - 3.0
    elif how == "special" and k == "Gaussian":
        v = p["sigma"] ** 2
        x = d.generate_from_variance(jnp.full(n, v))
        p = dict(mean=0.0, sigma=p["sigma"])
    elif how == "special" and k == "Poisson":
        x = d.generate_from_expectation(jnp.full(n, p["mean"]))
    else:
        x = d.generate(z)
    x = np.asarray(x, dtype=float)
    what = "%sDeviate(%s) by %s" % (k, p, how)
    require(x.shape == (n,) and np.all(np.isfinite(x)), "%s: not finite numbers", what)
    m, v, m4 = moments(k, p)
    moment_check(what, x, m, v, m4)
    if k == "Uniform":
        require(x.min() >= 0 and x.max() < 1, "%s: outside [0,1)", what)
    if k in ("Gamma", "Weibull", "Chi2", "Poisson", "Binomial"):
        require(x.min() >= 0, "%s: negative values", what)
    discrete = k in ("Poisson", "Binomial")
    # above 2^17 the library draws a rounded-free normal value, like GalSim above 2^30
    if discrete and not (k == "Poisson" and p["mean"] >= 2**17):
        require(np.all(x == np.floor(x)), "%s: not whole numbers", what)
        if k == "Binomial":
            require(x.max() <= p["N"], "%s: larger than N", what)
    if v > 0:
        big = k == "Poisson" and p["mean"] >= 2**17
        ks(what, x, lambda y: cdf(k, p, y) if not big else cdf("Gaussian", dict(mean=m, sigma=math.sqrt(v)), y), discrete and not big)
        # successive values are uncorrelated
        y = x - m
        c = (y[1:] * y[:-1]).mean() / v
        require(abs(c) < NSIG * (1 / math.sqrt(n)) * max(1.0, 0.3 * math.sqrt(m4 / v / v)),
                "%s: successive values are correlated (%.4f)", what, c)
        y = y[: n // 100 * 100].reshape(-1, 100)
        c = (y[1:] * y[:-1]).mean() / v
        require(abs(c) < NSIG * (1 / math.sqrt(n)) * max(1.0, 0.3 * math.sqrt(m4 / v / v)),
                "%s: values a hundred apart are correlated (%.4f)", what, c)
    label(k, how)
    return v > 0


# ------------------------------------------------------------------ noise models: exact
@st.composite
def noisedesc(draw):
    k = draw(st.sampled_from(["Gaussian", "Gaussian", "Poisson", "Poisson", "CCD", "CCD", "CCD", "Deviate", "Variable"]))
    d = {"noise": k}
    lev = st.one_of(S.fl(0, 30, 3), st.sampled_from([0.0, 1.0, 2.5, 100.0, 1234.75]))
    if k == "Gaussian":
        d["sigma"] = draw(st.one_of(S.fl(0, 20, 3), st.just(0.0)))
    elif k == "Poisson":
        d["sky_level"] = draw(lev)
    elif k == "CCD":
        d["sky_level"] = draw(lev)
        d["gain"] = draw(st.sampled_from([0.0, 1.0, 1.0, 0.5, 1.7, 4.0]))
        d["read_noise"] = draw(st.sampled_from([0.0, 0.0, 1.0, 3.25, 10.0]))
    elif k == "Deviate":
        d["dev"] = draw(devparams())
    else:
        d["dt"] = draw(st.sampled_from(["D", "F", "I"]))
    return d


SHAPES = [(1, 1), (2, 3), (5, 4)]


@st.composite
def noisecase(draw):
    shape = draw(st.sampled_from(SHAPES))
    d = draw(noisedesc())
    steps = draw(st.lists(st.sampled_from(["apply", "apply", "addNoise", "with", "scale", "mul", "rmul", "div", "copy", "copyrng",
                                           "snr", "snrflux", "draw"]), min_size=1, max_size=5))
    return [d, list(shape), draw(st.sampled_from(["D", "F", "I", "S", "UI", "US"])), draw(S.seeds), draw(st.integers(0, 10**6)),
            [[s, draw(S.fl(0.1, 9, 2))] for s in steps], draw(st.booleans()), draw(S.wcses(kinds=("PixelScale", "AffineTransform")))]


def make_noise(d, rng, G, shape, seed):
    k = d["noise"]
    if k == "Gaussian":
        return G.GaussianNoise(rng, sigma=d["sigma"])
    if k == "Poisson":
        return G.PoissonNoise(rng, sky_level=d["sky_level"])
    if k == "CCD":
        return G.CCDNoise(rng, sky_level=d["sky_level"], gain=d["gain"], read_noise=d["read_noise"])
    if k == "Deviate":
        return G.DeviateNoise(getattr(G, d["dev"][0] + "Deviate")(rng, **d["dev"][1]))
    return G.VariableGaussianNoise(rng, G.Image(var_array(d, shape, seed)))


def var_array(d, shape, seed):
    return np.random.RandomState(seed + 1).uniform(0, 9, shape).astype(DTYPES[d["dt"]])


def draw_gauss(ser, sigma, n, mean=0.0):
    """n values of the stream at the given state, and the state after them."""
    g = JG.GaussianDeviate(ser, mean=mean, sigma=sigma)
    x = np.asarray(g.generate(np.zeros(n)))
    return x, g.serialize()


def draw_poisson(ser, e):
    g = JG.PoissonDeviate(ser)
    x = np.asarray(g.generate_from_expectation(jnp.asarray(e)))
    return x, g.serialize()


def model(d, ser, a, seed):
    """GalSim's rule for what the noise makes of the pixels a; with the state after."""
    k, dt = d["noise"], a.dtype
    n = a.size
    if k in ("Gaussian", "Deviate", "Variable"):
        if k == "Gaussian":
            x, ser = draw_gauss(ser, d["sigma"], n)
        elif k == "Deviate":
            g = getattr(JG, d["dev"][0] + "Deviate")(ser, **d["dev"][1])
            x = np.asarray(g.generate(np.zeros(n)), dtype=float)
            ser = g.serialize()
        else:
            x, ser = draw_gauss(ser, 1.0, n)
            x = x * np.sqrt(np.asarray(var_array(d, a.shape, seed), dtype=float).ravel())
        exact = a + x.reshape(a.shape)
        with np.errstate(all="ignore"):
            out = a + x.reshape(a.shape).astype(dt)
        return out, ser, exact, x
    sky = d["sky_level"]
    e = a.astype(float).ravel() + sky
    frac = float(sky - dt.type(sky))
    if k == "Poisson":
        x, ser = draw_poisson(ser, e.clip(0))
    else:
        x = e
        if d["gain"] > 0:
            x, ser = draw_poisson(ser, (e * d["gain"]).clip(0))
            x = x / d["gain"]
        if d["read_noise"] > 0:
            y, ser = draw_gauss(ser, d["read_noise"] / d["gain"] if d["gain"] > 0 else d["read_noise"], n)
            x = x + y
    exact = (x - sky).reshape(a.shape)
    x = x - frac
    with np.errstate(all="ignore"):
        out = x.astype(dt).astype(float) - (sky - frac)
    return out.reshape(a.shape), ser, exact, x


def ref_rules(d):
    """The same noise in GalSim (for the bookkeeping, not the random numbers)."""
    return d


def apply_desc(d, step, val):
    """The description after a variance operation (GalSim's documented rules)."""
    d = dict(d)
    k = d["noise"]
    ratio = {"scale": val, "mul": val, "rmul": val, "div": 1.0 / val}.get(step)
    if k == "Gaussian":
        d["sigma"] = math.sqrt(val) if step == "with" else d["sigma"] * math.sqrt(ratio)
    elif k == "Poisson":
        d["sky_level"] = val if step == "with" else d["sky_level"] * ratio
    else:
        if step == "with":
            v = variance(d)
            if v <= 0:
                return dict(noise="CCD", sky_level=val, gain=1.0, read_noise=0.0)
            ratio = val / v
        d["sky_level"] *= ratio
        d["read_noise"] *= math.sqrt(ratio)
    return d


def variance(d):
    k = d["noise"]
    if k == "Gaussian":
        return d["sigma"] ** 2
    if k == "Poisson":
        return d["sky_level"]
    if k == "CCD":
        g = d["gain"]
        return d["sky_level"] / g + (d["read_noise"] / g) ** 2 if g > 0 else d["read_noise"] ** 2
    return None


def check_attrs(noise, d):
    for n in ("sigma", "sky_level", "gain", "read_noise"):
        if n in d:
            close("%sNoise.%s" % (d["noise"], n), f(getattr(noise, n)), d[n], rtol=1e-12, atol=1e-14)
    v = variance(d)
    if v is not None:
        close("%sNoise.getVariance()" % d["noise"], f(noise.getVariance()), v, rtol=1e-12, atol=1e-14)


def noise_exact(case):
    d, shape, dt, seed, aseed, steps, neg, wcs = case
    shape = tuple(shape)
    r = np.random.RandomState(aseed)
    a = (r.uniform(-20 if neg else 0, 300, shape)).astype(DTYPES[dt]) if dt not in ("UI", "US") else r.randint(200, 400, shape).astype(DTYPES[dt])
    rng = JG.BaseDeviate(seed)
    noise = make_noise(d, rng, JG, shape, aseed)
    linked = True
    ser = rng.serialize()
    im = JG.Image(np.array(a), xmin=3, ymin=-2, wcs=S.make_wcs(wcs, JG))
    cur = np.array(a)
    n_applied = 0
    for step, val in steps:
        what = "%sNoise %s" % (d["noise"], step)
        if step in ("with", "scale", "mul", "rmul", "div"):
            def go():
                return {"with": lambda: noise.withVariance(val), "scale": lambda: noise.withScaledVariance(val),
                        "mul": lambda: noise * val, "rmul": lambda: val * noise, "div": lambda: noise / val}[step]()
            if d["noise"] in ("Deviate", "Variable"):
                e = raises(go)
                require(isinstance(e, RG.GalSimError), "%s: raised %r, GalSim raises GalSimError", what, e)
                continue
            if d["noise"] == "CCD" and step == "with" and variance(d) > 0 and variance(d) < 1e-12:
                continue
            new = go()
            check_attrs(noise, d)
            d = apply_desc(d, step, val)
            noise = new
            check_attrs(noise, d)
        elif step in ("copy", "copyrng"):
            if step == "copy":
                c = noise.copy()
                require(c == noise, "%s: not equal to the original: %r, %r", what, c, noise)
                noise = c
            else:
                rng = JG.BaseDeviate(seed + 1)
                ser = rng.serialize()
                noise = noise.copy(rng=rng)
            if d["noise"] != "Variable" and d["noise"] != "Deviate":
                check_attrs(noise, d)
        elif step == "draw":
            # the generator is shared with whoever passed it
            u = JG.UniformDeviate(ser)
            want = f(u())
            close(what + ": the shared generator", f(JG.UniformDeviate(noise.rng)()), want, rtol=1e-14)
            ser = u.serialize()
        else:
            if step in ("snr", "snrflux"):
                v = variance(d)
                if v is None:
                    e = raises(lambda: im.addNoiseSNR(noise, val, preserve_flux=step == "snrflux"))
                    require(isinstance(e, RG.GalSimError), "%s: raised %r, GalSim raises GalSimError", what, e)
                    continue
                sumsq = float(np.sum(np.asarray(cur, dtype=DTYPES[dt]) ** 2, dtype=float))
                if v <= 1e-9 or sumsq == 0 or not sumsq > 0:
                    continue
                if step == "snrflux":
                    dd = apply_desc(d, "with", sumsq / val / val)
                    base, ret = cur, sumsq / val / val
                else:
                    dd, ret = d, v
                    flux = val / math.sqrt(sumsq / v)
                    base = cur * flux
                    if np.dtype(DTYPES[dt]).kind in "iu":
                        base = np.round(base)
                        if np.any(np.abs(cur * flux - np.floor(cur * flux) - 0.5) < 1e-6):
                            return n_applied > 0
                    base = base.astype(DTYPES[dt])
                if too_big(dd, dt):
                    return n_applied > 0
                want, after, exact, x = model(dd, ser, base, aseed)
                if not usable(dt, want, exact, x):
                    return n_applied > 0
                got = im.addNoiseSNR(noise, val, preserve_flux=step == "snrflux")
                close(what + ": variance returned", f(got), ret, rtol=1e-6 if dt == "F" else 1e-12)
            else:
                if too_big(d, dt):
                    return n_applied > 0
                want, after, exact, x = model(d, ser, cur, aseed)
                if not usable(dt, want, exact, x):
                    return n_applied > 0
                if step == "apply":
                    noise.applyTo(im)
                else:
                    im.addNoise(noise)
            ser = after
            got = np.asarray(im.array)
            equal(what + ": dtype", got.dtype, np.dtype(DTYPES[dt]))
            if dt in ("D", "F"):
                tol = 1e-11 if dt == "D" else 3e-6
                close(what + ": pixels", got, want, rtol=tol, atol=tol * (1 + d.get("sky_level", 0) + np.abs(x).max()))
            else:
                close(what + ": pixels", got.astype(float), np.asarray(want, dtype=float), rtol=0)
            cur = got.copy()
            require(im.bounds == JG.BoundsI(3, 2 + shape[1], -2, shape[0] - 3) and im.wcs == S.make_wcs(wcs, JG),
                    "%s: bounds or wcs changed", what)
            n_applied += 1
            equal(what + ": state of the generator given", rng.serialize(), ser)
            label(d["noise"], dt)
    return n_applied > 0


def too_big(d, dt):
    """A sky that the (integer) image type cannot hold."""
    t = np.dtype(DTYPES[dt])
    return t.kind in "iu" and d.get("sky_level", 0.0) > np.iinfo(t).max - 1000


def usable(dt, want, exact, x):
    """Integer images: skip values the type cannot hold or that sit on a rounding edge."""
    if dt in ("D", "F"):
        return np.all(np.isfinite(want)) and np.abs(want).max() < 1e8
    i = np.iinfo(DTYPES[dt])
    if np.any(exact < i.min + 2) or np.any(exact > i.max - 2) or np.any(x < i.min) or np.any(x > i.max):
        return False
    x = np.asarray(x, dtype=float)
    d = np.abs(x - np.round(x))
    # exact whole numbers are safe in both conversions
    return not np.any((d > 0) & (d < 1e-6))


# ------------------------------------------------------------------ noise models: variance they report
@st.composite
def varcase(draw):
    d = draw(noisedesc().filter(lambda d: d["noise"] in ("Gaussian", "Poisson", "CCD", "Variable")))
    return [d, draw(st.sampled_from(["D", "D", "F"])), draw(S.seeds), draw(S.fl(0, 50, 2)), draw(st.booleans())]


def noise_variance(case):
    d, dt, seed, pix, jit = case
    shape = (100, 120)
    n = shape[0] * shape[1]
    rng = JG.BaseDeviate(seed)
    im = JG.Image(np.full(shape, pix).astype(DTYPES[dt]))
    pix = float(np.asarray(im.array)[0, 0])
    noise = make_noise(d, rng, JG, shape, seed % 1000)
    im2 = JG.Image(np.full(shape, pix).astype(DTYPES[dt]))
    if jit:
        @jax.jit
        def go(image, noise):
            image.addNoise(noise)
            noise.applyTo(image)
            return image
        # two applications in a row, inside one compiled function
        im2 = go(im2, noise)
    im.addNoise(noise)
    x = np.asarray(im.array, dtype=float).ravel() - pix
    k = d["noise"]
    what = "%r on pixels of %g" % (d, pix)
    if k == "Variable":
        v = np.asarray(var_array(d, shape, seed % 1000), dtype=float).ravel()
        y = x / np.sqrt(np.maximum(v, 1e-300))
        y = y[v > 0]
        x0 = x[v == 0]
        require(np.all(np.abs(x0) < 1e-5), "%s: noise on pixels of zero variance", what)
        moment_check(what, y, 0.0, 1.0, 3.0)
        tot, m4 = None, None
    else:
        if k == "Gaussian":
            tot = d["sigma"] ** 2
            m4 = 3 * tot**2
        elif k == "Poisson":
            tot = pix + d["sky_level"]
            m4 = tot + 3 * tot**2
        else:
            g = d["gain"]
            if g > 0:
                e = (pix + d["sky_level"]) * g
                pv, rv = e / g**2, (d["read_noise"] / g) ** 2
                m4 = (e + 3 * e * e) / g**4 + 6 * pv * rv + 3 * rv**2
                tot = pv + rv
            else:
                tot = d["read_noise"] ** 2
                m4 = 3 * tot**2
        tol = 0.0 if dt == "D" else 2e-5 * (pix + d.get("sky_level", 0.0) + 1)
        if tot > 1e-6:
            if tol * tol > 1e-4 * tot:
                return False
            moment_check(what, x, 0.0, tot, m4)
            if pix == 0:
                # on an empty image this is the variance the model reports
                close(what + ": reported variance", f(noise.getVariance()), tot, rtol=1e-12)
            if jit:
                z = np.asarray(im2.array, dtype=float).ravel() - pix
                if k in ("Gaussian", "CCD") and (k == "Gaussian" or d["gain"] <= 0):
                    # independent: variances add
                    moment_check(what + " applied twice inside jit", z, 0.0, 2 * tot, 12 * tot**2)
                elif pix + d.get("sky_level", 0.0) > 8 and k == "Poisson":
                    # the second application sees the first one's counts
                    moment_check(what + " applied twice inside jit", z, 0.0, 2 * tot, 12 * tot**2 + 30 * tot)
        else:
            require(np.all(np.abs(x) <= tol + 1e-10), "%s: changed the image", what)
    label(k, dt)
    return True


# ------------------------------------------------------------------ bookkeeping, against GalSim
@st.composite
def rulecase(draw):
    return [draw(noisedesc()), draw(S.fl(0.05, 20, 3)), draw(st.integers(0, 10**5)), draw(S.fl(1, 300, 1)), draw(st.booleans())]


def attrs(n):
    out = {}
    for k in ("sigma", "sky_level", "gain", "read_noise"):
        if hasattr(n, k):
            out[k] = f(getattr(n, k))
    try:
        out["var"] = f(n.getVariance())
    except Exception as e:  # noqa: BLE001
        out["var"] = type(e).__name__
    return out


def rules(case):
    d, v, seed, snr, pf = case
    shape = (3, 4)
    J = make_noise(d, JG.BaseDeviate(7), JG, shape, seed)
    R = make_noise(d, RG.BaseDeviate(7), RG, shape, seed)
    fns = [("itself", lambda n: n), ("withVariance", lambda n: n.withVariance(v)),
           ("withScaledVariance", lambda n: n.withScaledVariance(v)), ("* x", lambda n: n * v), ("x *", lambda n: v * n),
           ("/ x", lambda n: n / v), ("copy", lambda n: n.copy()), ("withVariance(0)", lambda n: n.withVariance(0.0)),
           ("withVariance twice", lambda n: n.withVariance(v).withVariance(2 * v)),
           ("withVariance(0) then back", lambda n: n.withVariance(0.0).withVariance(v))]
    for what, fn in fns:
        ej = er = None
        try:
            r = attrs(fn(R))
        except Exception as e:  # noqa: BLE001
            er = e
        try:
            j = attrs(fn(J))
        except Exception as e:  # noqa: BLE001
            ej = e
        if er is not None or ej is not None:
            require(er is not None and ej is not None and isinstance(ej, type(er)),
                    "%s of %r: %r, GalSim %r", what, d, ej or j, er or r)
            continue
        require(sorted(j) == sorted(r), "%s of %r: attributes %s, GalSim %s", what, d, sorted(j), sorted(r))
        for k in r:
            if isinstance(r[k], str) or isinstance(j[k], str):
                equal("%s of %r: %s" % (what, d, k), j[k], r[k])
            else:
                close("%s of %r: %s" % (what, d, k), j[k], r[k], rtol=1e-12, atol=1e-14)
    # addNoiseSNR: the variance GalSim reports, and a deterministic part of the image scaled as GalSim's
    a = np.random.RandomState(seed).uniform(0.1, 5, shape)
    if variance(d) and variance(d) > 1e-9:
        ij, ir = JG.Image(a.copy()), RG.Image(a.copy())
        vj = f(ij.addNoiseSNR(J, snr, preserve_flux=pf))
        vr = float(ir.addNoiseSNR(R, snr, preserve_flux=pf))
        close("addNoiseSNR of %r" % (d,), vj, vr, rtol=1e-12)
        flux = math.sqrt(float((a**2).sum()) / vr)
        if not pf:
            close("addNoiseSNR: the image has the S/N asked for", math.sqrt(float(((a * (snr / math.sqrt((a**2).sum() / vr))) ** 2).sum()) / vr), snr, rtol=1e-9)
        else:
            close("addNoiseSNR(preserve_flux)", flux, snr, rtol=1e-9)
    # shapes must match, and the object must be an image
    for what, fn in (("applyTo(array)", lambda G, n: n.applyTo(np.zeros(shape))),
                     ("rng", lambda G, n: type(n)(3) if d["noise"] != "Variable" else type(n)(3, G.Image(2, 2)))):
        ej, er = raises(lambda: fn(JG, J)), raises(lambda: fn(RG, R))
        require((ej is None) == (er is None), "%s on %r: %r, GalSim %r", what, d, ej, er)
    if d["noise"] == "Variable":
        ij = JG.Image(np.zeros((2, 2)))
        e = raises(lambda: ij.addNoise(J))
        require(isinstance(e, RG.GalSimIncompatibleValuesError), "wrong shape: raised %r", e)
        equal("var_image", np.asarray(J.var_image.array), R.var_image.array)
    # an immutable image is left alone
    const = JG.Image(np.array(a), make_const=True)
    cr = RG.Image(np.array(a), make_const=True)
    ej, er = raises(lambda: const.addNoise(J)), raises(lambda: cr.addNoise(R))
    require(er is not None and ej is not None, "addNoise to an immutable image: %r, GalSim %r", ej, er)
    equal("the immutable image", np.asarray(const.array), a)
    label(d["noise"])
    return True


TESTS = [
    Test("distribution", distcase, distribution, 120, 4000, "a distribution of non-zero width was tested on at least 10^4 values", cost=8),
    Test("noise_exact", noisecase, noise_exact, 160, 6000, "noise was added at least once and compared with the model", cost=5),
    Test("noise_variance", varcase, noise_variance, 60, 2000, "the noise of 12000 pixels was tested", cost=8),
    Test("rules", rulecase, rules, 240, 4000, "all variance rules were compared with GalSim", cost=2),
]
