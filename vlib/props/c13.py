"""C13: random generators are deterministic, splittable streams.

Model: a generator state is (seed, position).  The value at a position is what a
fresh deviate of the same kind with the same seed gives on its (position+1)-th
single draw."""

import copy
import pickle
import warnings

import galsim  # noqa: F401
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vlib import specs as S
from vlib.core import Test, Violation, close, equal, label, require
from vlib.specs import JG

warnings.filterwarnings("ignore")

KINDS = ["Base", "Uniform", "Gaussian", "Poisson", "Binomial", "Gamma", "Weibull", "Chi2"]


@st.composite
def devdesc(draw, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    p = {}
    if k == "Gaussian":
        p = dict(mean=draw(S.fl(-5, 5, 2)), sigma=draw(S.fl(0, 4, 2)))
    elif k == "Poisson":
        p = dict(mean=draw(st.one_of(S.fl(0.0, 60, 2), st.sampled_from([0.0, 1e3, 2.0e5]))))
    elif k == "Binomial":
        p = dict(N=draw(st.sampled_from([1, 4, 11])), p=draw(S.fl(0, 1, 2)))
    elif k == "Gamma":
        p = dict(k=draw(S.fl(0.3, 6, 2)), theta=draw(S.fl(0.1, 4, 2)))
    elif k == "Weibull":
        p = dict(a=draw(S.fl(0.5, 5, 2)), b=draw(S.fl(0.1, 4, 2)))
    elif k == "Chi2":
        p = dict(n=draw(S.fl(0.5, 9, 2)))
    return [k, p]


def make(desc, seed):
    return getattr(JG, desc[0] + "Deviate")(seed, **desc[1])


GEN = {}  # (desc, seed) -> (fresh deviate, values so far)


def at(desc, seed, pos, n=1):
    """The model's values at positions pos .. pos+n-1."""
    key = repr((desc, seed))
    if len(GEN) > 400:
        GEN.clear()
    if key not in GEN:
        GEN[key] = (make(desc, fresh_seed(seed)), [])
    d, vals = GEN[key]
    while len(vals) < pos + n:
        vals.append(float(d.raw() if desc[0] == "Base" else d()))
    return vals[pos : pos + n]


def raw_at(seed, pos):
    return at(["Base", {}], seed, pos)[0]


def fresh_seed(seed):
    return seed


class State:
    """A model state, shared by linked deviates."""

    def __init__(self, seed, pos=0):
        self.seed, self.pos = seed, pos

    def take(self, n):
        p = self.pos
        self.pos += n
        return p


class Dev:
    def __init__(self, obj, desc, state):
        self.obj, self.desc, self.state = obj, desc, state


SEEDFORMS = ["int", "npint", "np64", "jint", "key", "str", "tuple", "float"]


def seed_as(seed, form):
    if form == "int":
        return seed
    if form == "npint":
        return np.int32(seed)
    if form == "np64":
        return np.int64(seed)
    if form == "jint":
        return jnp.array(seed)
    key = jax.random.key(seed)
    if form == "key":
        return key
    data = tuple(int(v) for v in np.asarray(jax.random.key_data(key)))
    return repr(data) if form == "str" else data


SHAPES = [(1,), (3,), (7,), (2, 3), (0,)]


@st.composite
def history(draw):
    start = [draw(devdesc()), draw(S.seeds), draw(st.sampled_from(SEEDFORMS[:-1]))]
    ops = []
    n = draw(st.integers(2, 14))
    for _ in range(n):
        k = draw(st.sampled_from([
            "call", "call", "gen", "gen", "addgen", "special", "raw", "discard", "dup", "copy", "deepcopy",
            "pickle", "link", "link", "linkreset", "reset", "seed", "serialize", "clear", "repr", "ident",
            "jitdraw", "jitdraw", "treemap", "vmapdraw", "permute", "eq", "noise", "random", "addnoise"]))
        i = draw(st.integers(0, 20))
        op = [k, i]
        if k in ("gen", "addgen", "special", "noise", "jitdraw", "vmapdraw"):
            op.append(draw(st.integers(0, len(SHAPES) - 1)))
        elif k == "discard":
            op.append(draw(st.one_of(st.integers(0, 12), st.just(40))))
        elif k in ("link", "serialize"):
            op.append(draw(devdesc()))
        elif k in ("reset", "seed"):
            op += [draw(st.one_of(S.seeds, st.just(start[1]))), draw(st.sampled_from(SEEDFORMS))]
        elif k in ("linkreset", "eq"):
            op.append(draw(st.integers(0, 20)))
        elif k == "permute":
            op.append(draw(st.integers(1, 3)))
        ops.append(op)
    return [start, ops]


def advances(k):
    return k in ("call", "gen", "addgen", "special", "raw", "discard", "permute", "noise")


def check_vals(what, got, want, dev):
    tol = 1e-12 if dev.desc[0] not in ("Binomial",) else 0.0
    sc = abs(dev.desc[1].get("mean", 0.0)) if dev.desc[0] == "Gaussian" else 0.0
    close(what + " of a " + dev.desc[0] + "Deviate", got, np.asarray(want), rtol=tol, atol=1e-14 * (1 + sc))


def array_of(shape, k):
    return np.linspace(0.5, 9.5, max(int(np.prod(shape)), 1))[: int(np.prod(shape))].reshape(shape)


@jax.jit
def ident(d):
    return d


def _jd(d, n):
    vals = [d.raw() if type(d) is JG.BaseDeviate else d() for _ in range(n)]
    return vals, d


jitdraw = jax.jit(_jd, static_argnums=1)


@jax.jit
def jitgen(d, a):
    v = d.generate(a)
    return v, d


@jax.jit
def vmapdraw(ds):
    return jax.vmap(lambda d: (d(), d))(ds)


def run(case):
    (desc, seed, form), ops = case
    st0 = State(seed)
    devs = [Dev(make(desc, seed_as(seed, form)), desc, st0)]
    drawn = 0
    links = 0
    for op in ops:
        k = op[0]
        d = devs[op[1] % len(devs)]
        o, s, base = d.obj, d.state, d.desc[0] == "Base"
        if len(devs) > 8:
            devs = devs[-8:]
        if k == "call":
            if base:
                continue
            check_vals("value %d" % s.pos, o(), at(d.desc, s.seed, s.take(1))[0], d)
            drawn += 1
        elif k in ("gen", "addgen"):
            if base:
                continue
            a = array_of(SHAPES[op[2]], k)
            p = s.take(a.size)
            want = np.array(at(d.desc, s.seed, p, a.size)).reshape(a.shape)
            arg = jnp.array(a) if op[1] % 2 else a.copy()
            got = o.generate(arg) if k == "gen" else o.add_generate(arg)
            check_vals(k + " at %d" % p, got, want if k == "gen" else want + a, d)
            equal("the array given", np.asarray(arg), a)
            drawn += a.size
        elif k == "special":
            a = array_of(SHAPES[op[2]], k)
            if d.desc[0] == "Gaussian":
                p = s.take(a.size)
                want = np.array(at(["Gaussian", dict(mean=0.0, sigma=1.0)], s.seed, p, a.size)).reshape(a.shape)
                close("generate_from_variance", o.generate_from_variance(jnp.array(a)), want * np.sqrt(a),
                      rtol=1e-12, atol=1e-14)
            elif d.desc[0] == "Poisson":
                p = s.take(a.size)
                want = [at(["Poisson", dict(mean=float(m))], s.seed, p + i)[0] for i, m in enumerate(a.ravel())]
                close("generate_from_expectation", o.generate_from_expectation(jnp.array(a)),
                      np.array(want).reshape(a.shape), rtol=0)
            else:
                continue
            drawn += a.size
        elif k == "raw":
            close("raw value at %d" % s.pos, float(o.raw()), raw_at(s.seed, s.take(1)), rtol=0)
            drawn += 1
        elif k == "discard":
            o.discard(op[2])
            s.take(op[2])
        elif k in ("dup", "copy", "deepcopy", "pickle", "ident", "treemap", "repr"):
            if k == "dup":
                n = o.duplicate()
            elif k == "copy":
                n = copy.copy(o)
            elif k == "deepcopy":
                n = copy.deepcopy(o)
            elif k == "pickle":
                n = pickle.loads(pickle.dumps(o))
            elif k == "ident":
                n = ident(o)
            elif k == "treemap":
                n = jax.tree_util.tree_map(lambda x: x, o)
            else:
                n = eval(repr(o), {"galsim": JG})
            require(type(n) is type(o), "%s gave a %s", k, type(n).__name__)
            require(n == o and o == n and not (n != o), "%s is not equal to the original %r: %r", k, o, n)
            devs.append(Dev(n, d.desc, State(s.seed, s.pos)))
        elif k == "link":
            devs.append(Dev(make(op[2], o), op[2], s))
            links += 1
        elif k == "linkreset":
            e = devs[op[2] % len(devs)]
            e.obj.reset(o)
            e.state = s
        elif k == "reset":
            if op[3] == "float":
                continue
            o.reset(seed_as(op[2], op[3]))
            d.state = State(op[2])
        elif k == "seed":
            f = op[3] if op[3] in ("int", "npint", "np64", "jint", "float") else "int"
            o.seed(float(op[2]) if f == "float" else seed_as(op[2], f))
            s.seed, s.pos = op[2], 0
        elif k == "serialize":
            ser = o.serialize()
            require(isinstance(ser, str), "serialize() gave %r", type(ser))
            n = make(op[2], ser)
            devs.append(Dev(n, op[2], State(s.seed, s.pos)))
            equal("serialize() twice", o.serialize(), ser)
        elif k == "clear":
            o.clearCache()
        elif k == "jitdraw":
            m = (0, 1, 3)[op[2] % 3]
            if m == 0 and not base:
                a = array_of(SHAPES[op[2]], k)
                v, n = jitgen(o, jnp.array(a))
                want = np.array(at(d.desc, s.seed, s.pos, a.size)).reshape(a.shape)
                m = a.size
            else:
                v, n = jitdraw(o, m)
                v, want = np.array(v, dtype=float), np.array(at(d.desc, s.seed, s.pos, m))
            check_vals("values drawn inside jit", v, want, d)
            # the generator given is not advanced, the one returned is
            x = s.pos
            require(n != o or m == 0, "the generator returned by a jitted draw did not advance")
            if op[1] % 2:
                o.reset(n)
                d.state = State(s.seed, x + m)
            else:
                devs.append(Dev(n, d.desc, State(s.seed, x + m)))
            drawn += m
        elif k == "vmapdraw":
            if base or d.desc[0] == "Binomial":
                continue
            e = o.duplicate()
            e.discard(2)
            stack = jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(y) for y in x]), o, e)
            v, n = vmapdraw(stack)
            want = [at(d.desc, s.seed, s.pos)[0], at(d.desc, s.seed, s.pos + 2)[0]]
            check_vals("values drawn by vmap", v, want, d)
            first, second = (jax.tree_util.tree_map(lambda x: x[i], n) for i in (0, 1))
            devs.append(Dev(second, d.desc, State(s.seed, s.pos + 3)))
            devs.append(Dev(first, d.desc, State(s.seed, s.pos + 1)))
            drawn += 2
        elif k == "permute":
            arrs = [np.arange(6) * (10**i) for i in range(op[2])]
            lists = [list(a) if op[1] % 3 == 0 else a for a in arrs]
            twin = make(["Base", {}], seed_at(s))
            out = JG.random.permute(o, *[jnp.array(x) for x in lists])
            same = JG.random.permute(twin, *[jnp.array(x) for x in lists])
            equal("number of permuted arrays", len(out), len(arrs))
            for i, (a, b) in enumerate(zip(out, same)):
                equal("permute is determined by the state", np.asarray(a), np.asarray(b))
                equal("permuted values", sorted(np.asarray(a).tolist()), sorted(arrs[i].tolist()))
                equal("all arrays get one permutation", np.asarray(a), np.asarray(out[0]) * 10**i)
            s.take(1)
        elif k == "noise":
            a = array_of(SHAPES[op[2]], k)
            if a.ndim != 2:
                continue
            im = JG.Image(jnp.array(a))
            noise = JG.GaussianNoise(o, sigma=2.0)
            im.addNoise(noise)
            want = at(["Gaussian", dict(mean=0.0, sigma=2.0)], s.seed, s.take(a.size), a.size)
            close("image with noise", im.array, a + np.array(want).reshape(a.shape), rtol=1e-12, atol=1e-13)
        elif k == "addnoise":
            noise = JG.VariableGaussianNoise(o, JG.Image(jnp.array([[1.0, 4.0]])))
            im = JG.Image(jnp.zeros((1, 2)))
            noise.applyTo(im)
            want = at(["Gaussian", dict(mean=0.0, sigma=1.0)], s.seed, s.take(2), 2)
            close("image with noise", np.asarray(im.array)[0], np.array(want) * [1, 2], rtol=1e-12, atol=1e-13)
        elif k == "random":
            n = make(d.desc, None if op[1] % 2 else 0)
            ser = n.serialize()
            devs.append(Dev(n, d.desc, State(ser)))
            require(n != o, "two unseeded generators are the same")
        elif k == "eq":
            e = devs[op[2] % len(devs)]
            same = d.desc == e.desc and (s.seed, s.pos) == (e.state.seed, e.state.pos)
            if isinstance(s.seed, str) == isinstance(e.state.seed, str):
                sub = isinstance(o, type(e.obj)) or isinstance(e.obj, type(o))
                if same or d.desc[0] == e.desc[0] or not sub:
                    equal("%r == %r" % (o, e.obj), bool(e.obj == o), same)
        label(k)
    # afterwards every deviate still sits where the model says
    for d in devs:
        want = make(["Base", {}], seed_at(d.state)).serialize()
        equal("final state of %r" % (d.obj,), d.obj.serialize(), want)
        for n, v in d.desc[1].items():
            close("%s.%s" % (d.desc[0], n), float(getattr(d.obj, "n" if n == "N" else n)), v, rtol=1e-15)
    return drawn > 0


SER = {}


def seed_at(s):
    """A seed that starts a generator at the model state: reached by raw draws only."""
    if len(SER) > 400:
        SER.clear()
    if s.seed not in SER:
        SER[s.seed] = (JG.BaseDeviate(s.seed), [])
    b, sers = SER[s.seed]
    while len(sers) <= s.pos:
        sers.append(b.serialize())
        b.raw()
    return sers[s.pos]


# ------------------------------------------------------------------ independence of positions
@st.composite
def streamcase(draw):
    return [draw(devdesc(KINDS[1:])), draw(S.seeds), draw(S.seeds), draw(st.integers(1, 30)),
            draw(st.lists(st.integers(0, 6), min_size=1, max_size=6))]


def stream(case):
    """Any way of cutting one stream into single draws, arrays and discards gives the
    same stream; different seeds give different streams; values do not repeat."""
    desc, s1, s2, n, cuts = case
    ref = make(desc, s1)
    want = np.array([float(ref()) for _ in range(n)])
    d = make(desc, s1)
    got, p = [], 0
    i = 0
    while p < n:
        c = cuts[i % len(cuts)]
        if p + c > n:
            c = n - p
        if i % 3 == 0 and c == 0:
            got.append(float(d()))
            p += 1
        elif i % 3 == 1:
            d.discard(c)
            got += list(want[p : p + c])
            p += c
        else:
            got += [float(v) for v in np.asarray(d.generate(np.zeros(c)))]
            p += c
        i += 1
        if i > 200:
            break
    close("the cut stream of a %s" % desc[0], np.array(got), want[: len(got)], rtol=1e-12, atol=1e-13)
    equal("states at the end", d.serialize(), ref.serialize()) if p == n else None
    cont = desc[0] == "Uniform" or (desc[0] == "Gaussian" and desc[1]["sigma"] > 0)
    if cont and n > 1:
        require(len(set(want.tolist())) == n, "a %s repeats values: %s", desc[0], want)
        if s1 != s2:
            e = make(desc, s2)
            other = np.array([float(v) for v in np.asarray(e.generate(np.zeros(n)))])
            require(not np.any(other == want), "different seeds %d, %d share values", s1, s2)
    label(desc[0])
    return n > 1


# ------------------------------------------------------------------ library calls that use a generator given to them
CONSUMERS = ["phot", "photmaxN", "photpoisson", "makePhot", "makePhotN", "shoot", "shootSum", "shootConv", "convolve", "applyTo",
             "fromImage", "gauss", "poisson", "ccd", "vargauss", "devnoise", "snr", "permute", "draw"]


@st.composite
def consumercase(draw):
    return dict(
        seed=draw(S.seeds),
        links=draw(st.lists(st.sampled_from(["Base", "Uniform", "Gaussian", "Poisson"]), min_size=1, max_size=3)),
        ops=draw(st.lists(st.tuples(st.sampled_from(CONSUMERS), st.integers(0, 3)), min_size=1, max_size=4)),
    )


def _consume(k, rng):
    """One call of the library that draws from rng; what it returned."""
    im = JG.ImageD(6, 5, scale=0.5, init_value=2.0)
    obj = JG.Gaussian(sigma=0.7, flux=30.0)
    if k == "phot":
        obj.drawImage(im, method="phot", n_photons=12, rng=rng)
    elif k == "photmaxN":
        obj.drawImage(im, method="phot", n_photons=12, maxN=5, rng=rng)
    elif k == "photpoisson":
        obj.drawImage(im, method="phot", poisson_flux=True, rng=rng)
    elif k in ("makePhot", "makePhotN", "shoot", "shootSum", "shootConv"):
        if k == "shootSum":
            obj = obj + JG.Exponential(half_light_radius=0.6)
        elif k == "shootConv":
            obj = JG.Convolve(obj, JG.Box(0.5, 0.4))
        if k == "makePhot":
            p = obj.makePhot(rng=rng)
        elif k == "makePhotN":
            p = obj.makePhot(n_photons=9, rng=rng)
        else:
            p = obj.shoot(7, rng)
        return [np.array(p.x), np.array(p.y), np.array(p.flux)]
    elif k in ("convolve", "applyTo", "fromImage"):
        p = JG.PhotonArray(5, x=np.arange(5.0), y=np.zeros(5), flux=np.ones(5))
        if k == "convolve":
            p.convolve(JG.PhotonArray(5, x=np.arange(5.0) ** 2, y=np.ones(5), flux=np.ones(5) * 0.2), rng)
        elif k == "applyTo":
            obj.applyTo(p, rng=rng)
        else:
            p = JG.PhotonArray.makeFromImage(im, rng=rng)
        return [np.array(p.x), np.array(p.y), np.array(p.flux)]
    elif k == "gauss":
        im.addNoise(JG.GaussianNoise(rng, 2.0))
    elif k == "poisson":
        im.addNoise(JG.PoissonNoise(rng, 3.0))
    elif k == "ccd":
        im.addNoise(JG.CCDNoise(rng, 3.0, 1.5, 2.0))
    elif k == "vargauss":
        im.addNoise(JG.VariableGaussianNoise(rng, JG.ImageD(6, 5, init_value=2.0)))
    elif k == "devnoise":
        im.addNoise(JG.DeviateNoise(JG.GaussianDeviate(rng, 1.0, 2.0)))
    elif k == "snr":
        im.addNoiseSNR(JG.GaussianNoise(rng), 10.0)
    elif k == "permute":
        return [np.array(JG.random.permute(rng, jnp.arange(6)))]
    else:
        return [float(JG.UniformDeviate(rng)())]
    return [np.array(im.array)]


def consumers(case):
    """A generator used by a library call stays shared by everything connected to it, and its stream is the one it
    would have without the others."""
    rng, alone = JG.BaseDeviate(case["seed"]), JG.BaseDeviate(case["seed"])
    links = [getattr(JG, k + "Deviate")(rng) for k in case["links"]]
    for k, i in case["ops"]:
        everyone = [rng] + links
        by = everyone[i % len(everyone)]
        before, dup = by.serialize(), by.duplicate()
        a, b = _consume(k, by), _consume(k, alone)
        for u, v in zip(a, b):
            equal("%s with a shared generator" % k, u, v)
        for d in everyone:
            require(d.serialize() == by.serialize(), "after %s, %s no longer shares the generator it is connected to", k, type(d).__name__)
        require(dup.serialize() == before, "after %s, a duplicate made before it has moved", k)
        require(by.serialize() == alone.serialize(), "after %s, the shared generator is not where it would be alone", k)
        if k != "convolve":
            require(by.serialize() != before, "%s did not advance the generator given to it", k)
        label(k)
    links[0].discard(1)
    require(rng.serialize() == links[0].serialize(), "the deviates have lost their connection")
    return True


TESTS = [
    Test("history", history, run, 400, 12000, "at least one value was drawn and compared with the model", cost=4),
    Test("consumers", consumercase, consumers, 80, 3000, "always", cost=4),
    Test("stream", streamcase, stream, 200, 4000, "more than one value was compared", cost=2),
]
