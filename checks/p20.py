TITLE = "Continuous distributions: density, distribution function, draws and mode agree with the documented law"
ASSUMPTIONS = ["real arithmetic; exp, log and gammaln are uninterpreted up to their algebraic laws",
               "draws: scipy's genextreme and PyMC's ChiSquared are taken to have their documented laws",
               "d/dx of the distribution function is PyTensor's gradient of the real graph"]
import math
import warnings

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from pytensor.tensor.random.op import RandomVariable

from checks.dists import density, rejects, scalar_inputs, size_of
from checks.marg import Inputs
from vlib import alg, ptsym, smt
from vlib.alg import T

NINF = alg.NINF


def gev_inputs(xi):
    I, v, t = scalar_inputs({"x": "real", "mu": "real", "sigma": "pos"} | ({"xi": "real"} if xi is None else {}))
    I.ranges |= {"x": (-4, 4), "mu": (-1, 1), "xi": (-0.9, 0.9)}
    if xi is not None:
        t["xi"] = T(xi)
        v["xi"] = xi
    return I, v, t


def gev_logp(t, gumbel=None):
    z = (t["x"] - t["mu"]) / t["sigma"]
    xi = t["xi"]
    s = 1 + xi * z
    if not bool(alg.gt(s, 0)):
        return ptsym.arr0(NINF)
    if bool(alg.le(alg.absolute(xi), T(1e-8))):  # the Gumbel limit, used in a neighbourhood of 0
        return ptsym.arr0(-alg.log(t["sigma"]) - z - alg.exp(-z))
    return ptsym.arr0(-alg.log(t["sigma"]) - (1 + 1 / xi) * alg.log(s) - alg.exp(-alg.log(s) / xi))


def gev_valid(t):
    return [alg.gt(t["xi"], T(-1)), alg.lt(t["xi"], T(1))]


def gev_density(S, xi, scipy):
    S.bound("GenExtreme logp: every value, mu, sigma > 0, " + ("every xi in (-1, 1)" if xi is None else f"xi = {xi}") + (", scipy=True" if scipy else ""))
    from pymc_extras.distributions import GenExtreme

    I, v, t = gev_inputs(xi)
    with S.encoding():
        lp = pm.logp(GenExtreme.dist(v["mu"], v["sigma"], v["xi"], scipy=scipy), v["x"])
    if scipy:
        t["xi"] = -t["xi"]
    density(S, "logp", lp, I, lambda: gev_logp(t), gev_valid(t))


def gev_cdf(S, xi):
    """inside the support: logcdf is the documented G, and its derivative is the density"""
    from pymc_extras.distributions import GenExtreme

    S.bound("GenExtreme logcdf: every value of the support, and below it for xi > 0")
    I, v, t = gev_inputs(xi)
    with S.encoding():
        rv = GenExtreme.dist(v["mu"], v["sigma"], v["xi"])
        lc = pm.logcdf(rv, v["x"])
        lp = pm.logp(rv, v["x"])
        dens = pt.grad(pt.exp(lc), v["x"])
    z = (t["x"] - t["mu"]) / t["sigma"]
    s = 1 + t["xi"] * z
    sup = alg.gt(s, 0)

    def spec():
        if bool(alg.le(alg.absolute(t["xi"]), T(1e-8))):
            return ptsym.arr0(-alg.exp(-z))
        return ptsym.arr0(-alg.exp(-alg.log(s) / t["xi"]))

    density(S, "logcdf", lc, I, spec, [*gev_valid(t), sup])

    def from_density():
        [r] = ptsym.evaluate([lp], I.givens)
        return ptsym.arr0(alg.exp(T(np.asarray(r, dtype=object)[()])))

    if xi != 0.0:
        density(S, "derivative-is-density", dens, I, from_density, [*gev_valid(t), sup], explorer=dict(log_positive=False, fork_all=True))
    if xi is None or xi > 0:
        density(S, "logcdf-below", lc, I, lambda: ptsym.arr0(NINF), [*gev_valid(t), alg.gt(t["xi"], T(1e-8)), alg.le(s, 0)])
    if xi is None or xi < 0:
        density(S, "logcdf-above", lc, I, lambda: ptsym.arr0(T(0)), [*gev_valid(t), alg.lt(t["xi"], T(-1e-8)), alg.le(s, 0)])


def gev_reject(S):
    from pymc_extras.distributions import GenExtreme

    S.bound("GenExtreme: every sigma <= 0 or |xi| >= 1")
    I = Inputs()
    x, mu, sigma, xi = (I.real(n) for n in ("x", "mu", "sigma", "xi"))
    t = {n: T(I.givens[v][()]) for n, v in zip(("x", "mu", "sigma", "xi"), (x, mu, sigma, xi))}
    I.assume.append(alg.bnot(alg.eq(t["sigma"], T(0))))
    with S.encoding():
        rv = GenExtreme.dist(mu, sigma, xi)
        lp, lc = pm.logp(rv, x), pm.logcdf(rv, x)
    valid = [alg.gt(t["sigma"], T(0)), *gev_valid(t)]
    rejects(S, "logp", lp, I, valid)
    rejects(S, "logcdf", lc, I, valid)


def gev_mode(S, size):
    """the support point is the mode (the derivative of the density vanishes there) and lies in the support, with the shape of a draw"""
    from pymc.distributions.distribution import support_point
    from pymc_extras.distributions import GenExtreme

    S.bound(f"GenExtreme initial value, size={size}: every mu, sigma > 0, xi in (-1, 1)")
    I = Inputs()
    mu, sigma = I.real("mu", (2,)), I.positive("sigma")
    xi = I.real("xi")
    I.ranges |= {"xi": (-0.9, 0.9)}
    t = T(I.givens[xi][()])
    with S.encoding():
        rv = GenExtreme.dist(mu, sigma, xi, size=size)
        sp = support_point(rv)
    shape = (2,) if size is None else tuple(size)
    s_, m_ = T(I.givens[sigma][()]), I.givens[mu]

    def spec():
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            m = m_[i[-1]]
            if bool(alg.le(alg.absolute(t), T(1e-8))):
                out[i] = m
            else:
                out[i] = m + s_ * (alg.exp(-t * alg.log(1 + t)) - 1) / t
        return [out]

    S.graph("mode", [sp], I.givens, spec, assumptions=[alg.gt(t, T(-1)), alg.lt(t, T(1))], ranges=I.ranges, explorer=dict(log_positive=False), labels=["initial value"])


def gev_draws(S, scipy, size):
    """rng_fn hands scipy's genextreme the parameters of the same law"""
    from scipy import stats

    from pymc_extras.distributions import GenExtreme

    S.bound(f"GenExtreme draws, size={size}, scipy={scipy}: every mu, sigma > 0, xi")
    I = Inputs()
    mu, sigma, xi = I.real("mu"), I.positive("sigma"), I.real("xi")
    x = I.real("x")
    I.ranges |= {"x": (-3, 3), "mu": (-1, 1), "xi": (-0.8, 0.8)}
    t = {n: T(I.givens[v][()]) for n, v in (("mu", mu), ("sigma", sigma), ("xi", xi), ("x", x))}
    calls = []

    class Stop(Exception):
        pass

    def fake(*a, c=None, loc=0, scale=1, size=None, random_state=None, **kw):
        if c is None and a:
            c, *a = a
        if a:
            loc, *a = a
        if a:
            scale, *a = a
        calls.append((c, loc, scale, size))
        raise Stop()

    with S.encoding():
        rv = GenExtreme.dist(mu, sigma, xi, scipy=scipy, size=size)
        lp = pm.logp(GenExtreme.dist(mu, sigma, xi, scipy=scipy), x)

    def handler(ev, node, ins):
        op = node.op
        if not isinstance(op, RandomVariable):
            return None
        rng, sz, *params = ins
        old = type(stats.genextreme).rvs
        stats.genextreme.rvs = fake
        try:
            op.rng_fn(None, *[np.asarray(p, dtype=object) for p in params], size_of(sz))
        except Stop:
            pass
        finally:
            del stats.genextreme.rvs
        return [rng, np.zeros(() if size is None else size)]

    with S.encoding():
        ptsym.evaluate([rv], I.givens, rv_handler=handler)
    if len(calls) != 1:
        S.unknown("scipy-call", f"scipy.stats.genextreme.rvs was called {len(calls)} times with symbolic parameters")
        return
    c, loc, scale, sz = calls[0]
    S.concrete("size", (tuple(sz) if sz is not None else None) == size, f"draws of size {sz}, required {size}")
    get = lambda a: T(np.asarray(a, dtype=object).ravel()[0])  # noqa: E731
    c, loc, scale = get(c), get(loc), get(scale)
    sgn = -1 if scipy else 1
    cur = [t["xi"] * sgn, t["mu"], t["sigma"]]

    def rep(assign):
        from scipy import stats as st

        full = {"mu": 0.3, "sigma": 1.1, "xi": 0.4, "x": 0.5} | assign
        n = 20000
        r = GenExtreme.dist(full["mu"], full["sigma"], full["xi"], scipy=scipy)
        d = np.sort(pm.draw(r, draws=n, random_seed=3))
        F = np.exp(pm.logcdf(r, d).eval())
        ks = np.abs(F - np.arange(1, n + 1) / n).max()
        return ks > 0.03, f"draws and logcdf disagree (KS distance {ks:.3f}) at {full}"

    for nm, a, b in zip(("shape", "location", "scale"), (-c, loc, scale), cur):
        S.equal(f"scipy-{nm}", a, b, [alg.gt(t["xi"], T(-1)), alg.lt(t["xi"], T(1))], rep, I.ranges)


def chi_spec(x, nu):
    if not bool(alg.gt(x, 0)):
        return ptsym.arr0(NINF)
    return ptsym.arr0((nu - 1) * alg.log(x) - x * x / 2 - (nu / 2 - 1) * T(math.log(2)) - alg.gammaln(nu / 2))


def chi(S, which):
    from pymc_extras.distributions import Chi

    S.bound("Chi logp: every value except 0, every nu > 0")
    I, v, t = scalar_inputs({"x": "real", "nu": "pos"})
    with S.encoding():
        if which == "dist":
            rv = Chi.dist(nu=v["nu"])
            lp = pm.logp(rv, v["x"])
        else:
            with pm.Model() as m:
                rv = Chi("c", nu=v["nu"], **({"observed": np.array([0.5, 2.0])} if which == "observed" else {"default_transform": None} if which == "model" else {}))
            lp = m.logp(sum=False)[0]
    x = t["x"]
    if which == "dist":
        density(S, "logp", lp, I, lambda: chi_spec(x, t["nu"]), [alg.bnot(alg.eq(x, T(0)))])
    elif which == "observed":
        del I.givens[v["x"]]
        S.graph("logp", [lp], I.givens, lambda: [np.array([chi_spec(T(0.5), t["nu"])[()], chi_spec(T(2.0), t["nu"])[()]], dtype=object)], explorer=dict(log_positive=False), labels=["logp"])
    elif which == "transformed":
        I.givens = {m.value_vars[0]: I.givens[v["x"]], v["nu"]: I.givens[v["nu"]]}
        S.concrete("log-transform", m.value_vars[0].name == "c_log__", f"unobserved Chi has value variable {m.value_vars[0].name}, required the log transform")
        # sampled on the log scale: density of y = log x
        e = alg.exp(x)
        density(S, "logp", lp, I, lambda: ptsym.arr0((t["nu"] - 1) * x - e * e / 2 - (t["nu"] / 2 - 1) * T(math.log(2)) - alg.gammaln(t["nu"] / 2) + x))
    else:
        I.givens = {m.value_vars[0]: I.givens[v["x"]], v["nu"]: I.givens[v["nu"]]}
        density(S, "logp", lp, I, lambda: chi_spec(x, t["nu"]), [alg.bnot(alg.eq(x, T(0)))])


def maxwell_spec(x, a):
    if not bool(alg.gt(x, 0)):
        return NINF
    return T(0.5 * math.log(2 / math.pi)) + 2 * alg.log(x) - 3 * alg.log(a) - x * x / (2 * a * a)


def maxwell(S, which):
    from pymc_extras.distributions import Maxwell

    S.bound(f"Maxwell logp ({which}): every value except 0, every a > 0")
    I = Inputs()
    if which == "scalar":
        x, a = I.real("x"), I.positive("a")
        av = [T(I.givens[a][()])]
        xs = [T(I.givens[x][()])]
        shape = ()
        kw = {}
    else:
        x, a = I.real("x", (2,)), I.real("a", (2,) if which == "vector" else ())
        shape = (2,)
        arr = np.broadcast_to(np.asarray(I.givens[a], dtype=object), (2,))
        av, xs = [T(e) for e in arr], [T(e) for e in I.givens[x]]
        I.assume += [alg.gt(e, T(0)) for e in np.asarray(I.givens[a], dtype=object).flat]
        kw = {} if which == "vector" else dict(size=(2,)) if which == "size" else dict(shape=(2,))
        for n in ("a_0", "a_1", "a"):
            I.ranges[n] = (0.3, 2.0)
    I.assume += [alg.bnot(alg.eq(e, T(0))) for e in xs]
    with S.encoding():
        lp = pm.logp(Maxwell.dist(a, **kw), x)

    def spec():
        out = np.empty(shape, dtype=object)
        for k, i in enumerate(np.ndindex(*shape)):
            out[i] = maxwell_spec(xs[k], av[k])
        return [out]

    S.graph("logp", [lp], I.givens, spec, assumptions=I.assume, ranges=I.ranges, explorer=dict(log_positive=False), labels=["logp"])


def maxwell_reject(S):
    from pymc_extras.distributions import Maxwell

    S.bound("Maxwell: every a <= 0 is rejected")
    I = Inputs()
    x, a = I.real("x"), I.real("a")
    with S.encoding():
        lp = pm.logp(Maxwell.dist(a), x)
    at = T(I.givens[a][()])
    I.assume.append(alg.gt(T(I.givens[x][()]), T(0)))
    I.assume.append(alg.bnot(alg.eq(at, T(0))))
    I.ranges["x"] = (0.1, 3)
    rejects(S, "logp", lp, I, [alg.gt(at, T(0))])


def sqrt_chi2_draws(S, which, size):
    """draws are a * sqrt(u), u a ChiSquared draw whose degrees of freedom give the stated density"""
    from pymc_extras.distributions import Chi, Maxwell

    S.bound(f"draws of {which}, size={size}: every outcome of the underlying ChiSquared draw, every parameter")
    I = Inputs()
    p = I.positive("p")
    x = I.real("x")
    seen = []
    shape = tuple(size or ())

    def handler(ev, node, ins):
        if not isinstance(node.op, RandomVariable):
            return None
        rng, sz, *params = ins
        seen.append((type(node.op).__name__, [np.asarray(q, dtype=object) for q in params]))
        u = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            u[i] = alg.positive_var("u" + "_".join(map(str, i)))
        got = size_of(sz)
        if got != shape and not (got is None and np.broadcast_shapes(*[q.shape for q in seen[-1][1]]) == shape):
            S.violation("size", f"the underlying draw has size {got}, required {shape}")
        return [rng, u]

    with warnings.catch_warnings(), S.encoding():
        warnings.simplefilter("ignore")
        rv = (Chi if which == "Chi" else Maxwell).dist(p, size=size)
        lp = pm.logp((Chi if which == "Chi" else Maxwell).dist(p), x)
        [d] = ptsym.evaluate([rv], I.givens, rv_handler=handler)
    if len(seen) != 1 or seen[0][0] not in ("GammaRV", "ChiSquareRV", "ChisquareRV"):
        S.unknown("draws", f"unexpected random operations {[s[0] for s in seen]}")
        return
    op, params = seen[0]
    params = [T(q.ravel()[0]) for q in params]
    pv = T(I.givens[p][()])

    def rep(assign):
        full = {"p": 1.3} | assign
        r = (Chi if which == "Chi" else Maxwell).dist(full["p"])
        dr = pm.draw(r, draws=20000, random_seed=3)
        m2 = float(np.mean(dr**2))
        want = full["p"] if which == "Chi" else 3 * full["p"] ** 2
        return abs(m2 / want - 1) > 0.1, f"second moment of the draws is {m2:.3f}, of the density {want:.3f} at p={full['p']}"

    for i in np.ndindex(*shape):
        u = alg.positive_var("u" + "_".join(map(str, i)))
        if op == "GammaRV":  # shape, scale
            k, scale = params
        else:
            k, scale = params[0] / 2, T(2)
        lu = (k - 1) * alg.log(u) - u / scale - alg.gammaln(k) - k * alg.log(scale)
        xd = np.asarray(d, dtype=object)[i]
        tag = "".join(f"[{j}]" for j in i)
        # density of the draw by change of variables: x = c sqrt(u)  =>  |du/dx| = 2 u / x
        ex = smt.Explorer([], log_positive=True)
        for path, (kind, want) in ex.run(lambda: alg.log(2 * u / T(xd)) + lu):
            g = dict(I.givens)
            g[x] = ptsym.arr0(xd)
            ex2 = smt.Explorer(path, log_positive=True)
            for path2, (kind2, got) in ex2.run(lambda: ptsym.evaluate([lp], g)[0]):
                S.equal(f"law{tag}", T(np.asarray(got, dtype=object)[()]), want, path2, rep, I.ranges)


def cases(tier):
    C = []

    def add(name, f, *a):
        C.append((name, lambda S: f(S, *a)))

    for scipy in (False, True):
        add(f"gev-logp{'-scipy' if scipy else ''}", gev_density, None, scipy)
    for xi in (0.0, 0.5, -0.5, 0.25):
        add(f"gev-logp-xi={xi}", gev_density, xi, False)
    add("gev-cdf", gev_cdf, None)
    add("gev-cdf-xi=0", gev_cdf, 0.0)
    add("gev-reject", gev_reject)
    for size in (None, (2,), (3, 2)):
        add(f"gev-mode-{size}", gev_mode, size)
    for scipy in (False, True):
        for size in (None, (3,)):
            add(f"gev-draws-{'scipy-' if scipy else ''}{size}", gev_draws, scipy, size)
    for w in ("dist", "observed", "transformed", "model"):
        add(f"chi-{w}", chi, w)
    for w in ("scalar", "vector", "size", "shape"):
        add(f"maxwell-{w}", maxwell, w)
    add("maxwell-reject", maxwell_reject)
    for w in ("Chi", "Maxwell"):
        for size in (None, (2,)):
            add(f"{w.lower()}-draws-{size}", sqrt_chi2_draws, w, size)
    return C
