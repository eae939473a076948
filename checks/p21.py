TITLE = "Discrete distributions: probabilities, draws and parameter checks agree with the documented law"
ASSUMPTIONS = ["real arithmetic; gammaln and the Bessel function are uninterpreted (gammaln with its recurrence)",
               "numpy's and PyMC's Poisson, Beta and negative binomial draws have their documented laws",
               "generator draws are replaced by symbolic outcomes"]
import math
import warnings

from fractions import Fraction

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from pytensor.tensor.random.op import RandomVariable

from checks.dists import density, rejects, scalar_inputs, size_of
from checks.marg import Inputs
from vlib import alg, ptsym, smt
from vlib.alg import T

NINF = alg.NINF
LOG = dict(log_positive=False)


# ---- GeneralizedPoisson -------------------------------------------------------------------------
def gp_valid(mu, lam):
    return [alg.gt(mu, T(0)), alg.le(lam, T(1)), alg.ge(lam, T(-1)), alg.ge(lam, -mu / 4)]


def gp_log(x, mu, lam):
    """log of the documented probability"""
    s = mu + lam * x
    if bool(alg.lt(T(x), T(0))) or not bool(alg.gt(s, 0)):
        return NINF
    return alg.log(mu) + (x - 1) * alg.log(s) - s - alg.gammaln(T(x) + 1)


def gp_inputs():
    I, v, t = scalar_inputs({"x": "real", "mu": "pos", "lam": "real"})
    I.ranges |= {"x": [-1.0, 0.0, 1.0, 2.0, 3.0, 5.0, 9.0], "mu": (0.5, 4), "lam": (-0.5, 0.9)}
    return I, v, t


def gp_density(S):
    from pymc_extras.distributions import GeneralizedPoisson

    S.bound("GeneralizedPoisson logp: every value, mu and lam of the documented domain")
    I, v, t = gp_inputs()
    with S.encoding():
        lp = pm.logp(GeneralizedPoisson.dist(v["mu"], v["lam"]), v["x"])
    density(S, "logp", lp, I, lambda: ptsym.arr0(gp_log(t["x"], t["mu"], t["lam"])), gp_valid(t["mu"], t["lam"]))


def gp_values(S, k):
    """at each integer, with the factorial as a number"""
    from pymc_extras.distributions import GeneralizedPoisson

    S.bound(f"GeneralizedPoisson logp at {k}: every mu and lam")
    I, v, t = gp_inputs()
    del I.givens[v["x"]]
    with S.encoding():
        lp = pm.logp(GeneralizedPoisson.dist(v["mu"], v["lam"]), k)
    mu, lam = t["mu"], t["lam"]

    def spec():
        s = mu + lam * k
        if k < 0 or not bool(alg.gt(s, 0)):
            return ptsym.arr0(NINF)
        return ptsym.arr0(alg.log(mu) + (k - 1) * alg.log(s) - s - T(math.log(math.factorial(k))))

    density(S, "logp", lp, I, spec, gp_valid(mu, lam))


def gp_reject(S):
    from pymc_extras.distributions import GeneralizedPoisson

    S.bound("GeneralizedPoisson: every mu <= 0 or lam outside [max(-1, -mu/4), 1], at values where the unchecked formula is defined")
    I = Inputs()
    x, mu, lam = I.real("x"), I.real("mu"), I.real("lam")
    t = {n: T(I.givens[v][()]) for n, v in (("x", x), ("mu", mu), ("lam", lam))}
    I.ranges |= {"mu": (-2, 2), "lam": (-2, 2), "x": [0.0, 1.0, 2.0]}
    with S.encoding():
        lp = pm.logp(GeneralizedPoisson.dist(mu, lam), x)
    rejects(S, "logp", lp, I, gp_valid(t["mu"], t["lam"]))


def gp_support_point(S, size):
    from pymc.distributions.distribution import support_point
    from pymc_extras.distributions import GeneralizedPoisson

    S.bound(f"GeneralizedPoisson initial value, size={size}: floor of the mean")
    I = Inputs()
    mu, lam = I.positive("mu"), I.real("lam")
    I.ranges["lam"] = (-0.1, 0.9)
    with S.encoding():
        sp = support_point(GeneralizedPoisson.dist(mu, lam, size=size))
    m, la = T(I.givens[mu][()]), T(I.givens[lam][()])
    want = np.empty(size or (), dtype=object)
    from vlib.ptsym import _floor

    S.graph("initial", [sp], I.givens, lambda: [np.full(size or (), _floor(m / (1 - la)), dtype=object)],
            assumptions=[*gp_valid(m, la), alg.lt(la, T(1))], ranges=I.ranges, labels=["initial value"])


class NumpyProxy:
    """numpy, with element-wise versions of the functions that have no object loop"""

    def __init__(self, limit=4000):
        self.calls, self.limit = 0, limit

    def __getattr__(self, name):
        self.calls += 1
        if self.calls > self.limit:
            raise TooLong()
        f = getattr(np, name)
        own = {"log": alg.log, "exp": alg.exp, "log1p": alg.log1p, "expm1": lambda x: alg.exp(x) - 1, "sqrt": alg.sqrt,
               "logaddexp": lambda a, b: alg.log(alg.exp(T(a)) + alg.exp(T(b)))}.get(name)
        if own is None:
            return f

        def g(*a, **k):
            a = [np.asarray(x) if not isinstance(x, alg.Term) else ptsym.arr0(x) for x in a]
            if not any(x.dtype == object for x in a) and not (name == "log" and a[0].dtype.kind == "i"):
                return f(*a, **k)
            b = np.broadcast_arrays(*a)
            out = np.empty(b[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = own(*[T(x[i]) for x in b])
            return out if out.shape else ptsym.arr0(out[()])

        return g


class TooLong(Exception):
    pass


class FakeRng:
    """numpy's generator with symbolic uniforms and enumerated Poisson outcomes"""

    def __init__(self, budget, uniforms=None):
        self.weight, self.total, self.budget, self.n, self.uniforms, self.first = T(1), 0, budget, 0, uniforms, 0

    def uniform(self, low=0.0, high=1.0, size=None):
        assert low == 0 and high == 1
        out = np.empty(size or (), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.uniforms[i] if self.uniforms is not None else alg.positive_var("u" + "_".join(map(str, i)))
        return out

    def random(self, size=None):
        return self.uniform(size=size)

    def poisson(self, lam=1.0, size=None):
        lam = np.asarray(lam, dtype=object) if not isinstance(lam, alg.Term) else ptsym.arr0(lam)
        if isinstance(size, int):
            size = (size,)
        shape = lam.shape if size is None else tuple(size)
        lam = np.broadcast_to(lam, shape)
        out = np.zeros(shape, dtype="int64")
        for i in np.ndindex(*shape):
            rate = T(lam[i])
            if rate.is_const() and rate.const() == 0:
                continue
            self.n += 1
            c = alg.var(f"c{self.n}")
            k = next((j for j in range(self.budget - self.total + 1) if bool(alg.eq(c, T(j)))), None)
            if k is None:
                raise smt.Infeasible()  # the total exceeds the bound of the exploration
            self.total += k
            out[i] = k
            if i and i[0] == 0:
                self.first += k
            self.weight = self.weight * alg.exp(-rate) * alg.ipow(rate, k) * Fraction(1, math.factorial(k))
        return out if shape or size is not None else np.int64(out[()])


def run_rng(op, rng, params, size, limit=4000):
    import pymc_extras.distributions.discrete as mod

    old, mod.np = mod.np, NumpyProxy(limit)
    try:
        return op.rng_fn(rng, *params, size)
    finally:
        mod.np = old


def gp_op(S):
    from pymc_extras.distributions import GeneralizedPoisson

    I, v, t = gp_inputs()
    with S.encoding():
        rv = GeneralizedPoisson.dist(v["mu"], v["lam"])
    got = []
    with S.encoding():
        ptsym.evaluate([rv], {k: a for k, a in I.givens.items() if k is not v["x"]},
                       rv_handler=lambda ev, node, ins: got.append((node.op, ins[2:])) or [ins[0], np.zeros((), dtype="int64")])
    [(op, params)] = got
    # one-element arrays: numpy turns zero-dimensional object arrays into bare symbolic scalars
    return I, v, t, op, [np.asarray(p, dtype=object).reshape(1) for p in params]


def frequency(mu, lam, k, want, size=None):
    from pymc_extras.distributions import GeneralizedPoisson

    n = 20000
    d = pm.draw(GeneralizedPoisson.dist(mu, lam), draws=n, random_seed=5)
    got = float(np.mean(d == k))
    return abs(got - want) > 6 * math.sqrt(max(want * (1 - want), 1e-4) / n), f"{k} is drawn with frequency {got:.4f}, its probability is {want:.4f} at mu={mu:.4g}, lam={lam:.4g}"


def gp_branching(S, K, zero):
    """lam >= 0: sum over the branching histories of their probabilities"""
    S.bound(f"GeneralizedPoisson draws, {'lam = 0' if zero else '0 < lam <= 1'}: every history of the branching algorithm with total up to {K}")
    I, v, t, op, params = gp_op(S)
    mu, lam = t["mu"], t["lam"]
    if zero:
        params[1] = np.array([T(0)], dtype=object)
    assume = [alg.eq(lam, T(0))] if zero else [alg.gt(lam, T(0)), alg.le(lam, T(1))]
    dist = {}

    def body():
        r = FakeRng(K)
        with S.encoding():
            x = run_rng(op, r, params, None)
        x = np.asarray(x)
        if x.shape != (1,):
            return ("shape", x.shape), None
        return int(x[0]), r.weight

    # an outcome beyond K ends a history early: choices are bounded by K, larger totals are discarded
    ex = smt.Explorer(assume, log_positive=True, max_paths=20000)
    for path, (kind, res) in ex.run(body):
        if kind == "raise":
            S.violation("raises", f"{type(res).__name__}: {res}")
            return
        x, w = res
        if isinstance(x, tuple):
            S.violation("shape", f"a draw with parameters of shape (1,) has shape {x[1]}")
            return
        if x <= K:
            dist[x] = dist.get(x, T(0)) + w
    la = T(0) if zero else lam
    for k in range(K + 1):
        want = alg.exp(-mu - la * k) * mu * (alg.ipow(mu + la * k, k - 1) if k else 1 / mu) * Fraction(1, math.factorial(k))

        def rep(assign, k=k, want=want):
            full = {"mu": 1.1, "lam": 0.0 if zero else 0.4, "x": 0} | assign
            return frequency(full["mu"], full["lam"], k, float(alg.NumEval(full)(want)))

        S.equal(f"law[{k}]", dist.get(k, T(0)), want, assume, rep, I.ranges | {"lam": (0.05, 0.95)})


def gp_inverse(S, K):
    """lam < 0: the draw is k exactly when F(k-1) < u <= F(k), F from the documented probabilities"""
    S.bound(f"GeneralizedPoisson draws, lam < 0: every uniform up to F({K})")
    alg.CTX.exp_div, alg.CTX.exp_collapse = 1, True
    I, v, t, op, params = gp_op(S)
    mu, lam = t["mu"], t["lam"]
    u = alg.positive_var("u")
    I.ranges |= {"u": (0.01, 0.99), "lam": (-0.6, -0.01), "mu": (1.0, 5.0)}

    def pmf(k):
        return alg.exp(-mu - lam * k) * mu * (alg.ipow(mu + lam * k, k - 1) if k else 1 / mu) * Fraction(1, math.factorial(k))

    F = [T(0)]
    for k in range(K + 1):
        F.append(F[-1] + pmf(k))
    assume = [*gp_valid(mu, lam), alg.lt(lam, T(0)), alg.lt(T(-1), lam), *[alg.gt(mu + j * lam, T(0)) for j in range(1, K + 1)], alg.le(u, F[-1])]
    ex = smt.Explorer(assume, log_positive=True, max_paths=400)

    def body():
        r = FakeRng(0, np.array([u], dtype=object))
        with S.encoding():
            return np.asarray(run_rng(op, r, params, None, 30 * (K + 3)))

    n = 0
    for path, (kind, res) in ex.run(body):
        n += 1

        def rep(assign):
            full = {"mu": 2.0, "lam": -0.3, "u": 0.4, "x": 0} | assign

            class R:
                def uniform(self, low=0.0, high=1.0, size=None):
                    return np.full(size or (), full["u"])

                random = uniform

            try:
                x = int(op.rng_fn(R(), np.asarray(full["mu"]), np.asarray(full["lam"]), None))
            except Exception as e:
                return True, f"drawing raises {type(e).__name__}: {e} at {full}"
            ev = alg.NumEval(full)
            c, k = 0.0, -1
            while c < full["u"] and k < K:
                k += 1
                c += float(ev(pmf(k)))
            near = min(abs(float(ev(f)) - full["u"]) for f in F[1:]) < 1e-9
            return x != k and not near, f"uniform {full['u']:.6g} gives the draw {x}, required {k} at mu={full['mu']:.6g}, lam={full['lam']:.6g}"

        if kind == "raise":
            S.prove(f"terminates@p{n}", False, path, rep, I.ranges)
            continue
        if res.shape != (1,):
            S.violation("shape", f"a draw with parameters of shape (1,) has shape {res.shape}")
            return
        k = int(res[0])
        if k > K:
            S.prove(f"bounded@p{n}", False, path, rep, I.ranges)
            continue
        S.prove(f"above-F[{k - 1}]@p{n}", alg.lt(F[k], u), path, rep, I.ranges)
        S.prove(f"below-F[{k}]@p{n}", alg.le(u, F[k + 1]), path, rep, I.ranges)


def gp_batch(S, how):
    """independent elements, mixed algorithms"""
    K = 2
    S.bound(f"GeneralizedPoisson draws, two elements ({how}): joint law for totals up to {K}")
    I, v, t, op, params = gp_op(S)
    mu, lam = t["mu"], t["lam"]
    mu2 = alg.positive_var("mu2")
    assume = [alg.gt(lam, T(0)), alg.le(lam, T(1))]
    if how == "mixed":  # concrete parameters: both methods run on both elements
        th = np.array([T(2.0), T(1.5)], dtype=object)
        la = np.array([T(-0.25), T(0.375)], dtype=object)
        us = np.array([T(0.45), T(0.99)], dtype=object)
        size, draws = None, None
        first = 0
        c = math.exp(-2.0)
        while c < 0.45:
            first += 1
            c += math.exp(-2.0 + 0.25 * first) * 2.0 * (2.0 - 0.25 * first) ** (first - 1) / math.factorial(first)
    else:
        th, la, us, first = np.array([mu, mu2], dtype=object), np.array([lam], dtype=object), None, None
        size = {"params": None, "size": (2,), "scalar-size": (2,)}[how]
        if how == "scalar-size":
            th = np.array([mu], dtype=object)
            mu2 = mu
    dist, mixed = {}, {}

    def body():
        r = FakeRng(K, us)
        with S.encoding():
            x = run_rng(op, r, [th, la], size)
        return np.asarray(x), r.weight, r.first

    from vlib.smt import Explorer

    ex = Explorer(assume, log_positive=True, max_paths=20000)
    for path, (kind, res) in ex.run(body):
        if kind == "raise":
            S.violation("raises", f"{type(res).__name__}: {res}")
            return
        x, w, other = res
        if x.shape != (2,):
            S.violation("shape", f"a draw has shape {x.shape}, required (2,)")
            return
        key = tuple(int(e) for e in x)
        dist[key] = dist.get(key, T(0)) + w
        if not other:
            mixed[key[1]] = mixed.get(key[1], T(0)) + w

    if how == "mixed":
        lam = T(0.375)

    def pmf(m, k):
        return alg.exp(-m - lam * k) * m * (alg.ipow(m + lam * k, k - 1) if k else 1 / m) * Fraction(1, math.factorial(k))

    def rep_for(k):
        def rep(assign):
            from pymc_extras.distributions import GeneralizedPoisson

            full = {"mu": 1.1, "lam": 0.4, "mu2": 0.8, "x": 0} | assign
            if how == "mixed":
                d = GeneralizedPoisson.dist(np.array([2.0, 1.5]), np.array([-0.25, 0.375]))
            elif how == "scalar-size":
                d = GeneralizedPoisson.dist(full["mu"], full["lam"], size=2)
            else:
                d = GeneralizedPoisson.dist(np.array([full["mu"], full["mu2"]]), full["lam"])
            x = pm.draw(d, draws=20000, random_seed=5)
            ev = alg.NumEval(full)
            if how == "mixed":
                got, want = float(np.mean(x[:, 1] == k[1])), float(ev(pmf(T(1.5), k[1])))
            else:
                got, want = float(np.mean((x == np.array(k)).all(1))), float(ev(pmf(mu, k[0]) * pmf(mu2, k[1])))
            return abs(got - want) > 6 * math.sqrt(max(want * (1 - want), 1e-4) / 20000), f"{k} drawn with frequency {got:.4f}, probability {want:.4f} at {full}"
        return rep

    for a in range(K + 1):
        for b in range(K + 1 - a):
            if how == "mixed":
                continue
            S.equal(f"law[{a},{b}]", dist.get((a, b), T(0)), pmf(mu, a) * pmf(mu2, b), assume, rep_for((a, b)), I.ranges | {"lam": (0.05, 0.95)})
    if how == "mixed":
        S.concrete("inverse-element", {k[0] for k in dist} == {first}, f"first element drawn as {sorted({k[0] for k in dist})}, required {first}")
        # the branching draws made for the element drawn by inversion are discarded: only histories in which
        # they are zero have been kept up to the bound, so compare the part of the law where they are
        for b in range(K + 1):
            got = mixed.get(b, T(0))
            S.equal(f"law[.,{b}]", got, pmf(T(1.5), b) * alg.exp(T(-2.0)), assume, rep_for((first, b)), I.ranges | {"lam": (0.05, 0.95)})


# ---- BetaNegativeBinomial -------------------------------------------------------------------------
def bnb_inputs(x="real"):
    I, v, t = scalar_inputs({"x": x, "alpha": "pos", "beta": "pos", "r": "pos"})
    I.ranges |= {"x": [-1.0, 0.0, 1.0, 2.0, 5.0]}
    return I, v, t


def betaln(a, b):
    return alg.gammaln(a) + alg.gammaln(b) - alg.gammaln(a + b)


def bnb_density(S):
    from pymc_extras.distributions import BetaNegativeBinomial

    S.bound("BetaNegativeBinomial logp: every value, alpha, beta, r > 0")
    I, v, t = bnb_inputs()
    with S.encoding():
        lp = pm.logp(BetaNegativeBinomial.dist(v["alpha"], v["beta"], v["r"]), v["x"])

    def spec():
        x, a, b, r = (t[n] for n in ("x", "alpha", "beta", "r"))
        if bool(alg.lt(x, T(0))):
            return ptsym.arr0(NINF)
        return ptsym.arr0(betaln(r + x, a + b) - betaln(r, a) + alg.gammaln(x + b) - alg.gammaln(x + 1) - alg.gammaln(b))

    density(S, "logp", lp, I, spec)


def bnb_reject(S):
    from pymc_extras.distributions import BetaNegativeBinomial

    S.bound("BetaNegativeBinomial: every alpha <= 0, beta <= 0 or r <= 0")
    I = Inputs()
    vs = {n: I.real(n) for n in ("x", "alpha", "beta", "r")}
    t = {n: T(I.givens[v][()]) for n, v in vs.items()}
    with S.encoding():
        lp = pm.logp(BetaNegativeBinomial.dist(vs["alpha"], vs["beta"], vs["r"]), vs["x"])
    rejects(S, "logp", lp, I, [alg.gt(t[n], T(0)) for n in ("alpha", "beta", "r")])


def independent_rngs(node_ins, seen):
    seen.append(node_ins)


def bnb_draws(S, size):
    """p ~ Beta, x | p ~ NegativeBinomial as drawn: their joint density is the stated probability of x
    times the conjugate Beta density of p"""
    from pymc_extras.distributions import BetaNegativeBinomial

    S.bound(f"BetaNegativeBinomial draws, size={size}: every outcome of the underlying draws")
    I, v, t = bnb_inputs("pos")
    shape = tuple(size or ())
    seen = {}

    def handler(ev, node, ins):
        if not isinstance(node.op, RandomVariable):
            return None
        rng, sz, *params = ins
        nm = type(node.op).__name__
        seen.setdefault(nm, []).append(([np.asarray(q, dtype=object) for q in params], size_of(sz), id(rng), node.inputs[0]))
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            if nm == "BetaRV":
                w = alg.positive_var("w" + "_".join(map(str, i)))
                out[i] = 1 / (1 + w)
            else:
                out[i] = T(I.givens[v["x"]][()])
        return [rng, out]

    with S.encoding():
        rv = BetaNegativeBinomial.dist(v["alpha"], v["beta"], v["r"], size=size)
        lp = pm.logp(BetaNegativeBinomial.dist(v["alpha"], v["beta"], v["r"]), v["x"])
        [d] = ptsym.evaluate([rv], I.givens, rv_handler=handler)
    d = np.asarray(d, dtype=object)
    if set(seen) != {"BetaRV", "NegBinomialRV"} or any(len(s) != 1 for s in seen.values()):
        S.unknown("draws", f"unexpected random operations {sorted(seen)}")
        return
    S.concrete("shape", d.shape == shape, f"draw of shape {d.shape}, required {shape}")
    [(bp, bs, brng, bvar)], [(np_, ns, nrng, nvar)] = seen["BetaRV"], seen["NegBinomialRV"]
    S.concrete("independent-generators", bvar is not nvar, "both draws use the same generator state")
    for s, ps in ((bs, bp), (ns, np_)):
        S.concrete("size", (s if s is not None else np.broadcast_shapes(*[q.shape for q in ps])) == shape, f"underlying draw of size {s}, required {shape}")
    x, a, b, r = (t[n] for n in ("x", "alpha", "beta", "r"))
    first = tuple(0 for _ in shape)

    def at(q, i):
        return T(np.broadcast_to(q, shape)[i])

    def rep(assign):
        full = {"alpha": 6.0, "beta": 3.0, "r": 4.0, "x": 1}
        dr = pm.draw(BetaNegativeBinomial.dist(6.0, 3.0, 4.0), draws=20000, random_seed=5)
        want = [float(np.exp(pm.logp(BetaNegativeBinomial.dist(6.0, 3.0, 4.0), k).eval())) for k in range(6)]
        got = [float(np.mean(dr == k)) for k in range(6)]
        bad = any(abs(g - w) > 6 * math.sqrt(w * (1 - w) / 20000) for g, w in zip(got, want))
        return bad, f"frequencies of 0..5 {np.round(got, 3)}, probabilities {np.round(want, 3)} at alpha=6, beta=3, r=4"

    for i in np.ndindex(*shape):
        w = alg.positive_var("w" + "_".join(map(str, i)))
        p = 1 / (1 + w)
        ba, bb = at(bp[0], i), at(bp[1], i)
        n_, p_ = at(np_[0], i), at(np_[1], i)
        lbeta = lambda aa, bb_: (aa - 1) * alg.log(p) + (bb_ - 1) * alg.log(1 - p) - betaln(aa, bb_)  # noqa: E731
        ex = smt.Explorer([], log_positive=True)

        def body():
            [lpx] = ptsym.evaluate([lp], I.givens)
            nb = alg.gammaln(n_ + x) - alg.gammaln(x + 1) - alg.gammaln(n_) + n_ * alg.log(p_) + x * alg.log(1 - p_)
            return lbeta(ba, bb) + nb, T(np.asarray(lpx, dtype=object)[()]) + lbeta(a + r, b + x)

        for path, (kind, res) in ex.run(body):
            if kind == "raise":
                S.violation("law", f"{type(res).__name__}: {res}")
                continue
            S.equal("law" + "".join(f"[{j}]" for j in i), res[0], res[1], path, rep, I.ranges)


# ---- Skellam -------------------------------------------------------------------------------------
def skellam_density(S):
    from pymc_extras.distributions import Skellam

    S.bound("Skellam logp: every value, mu1, mu2 > 0")
    I, v, t = scalar_inputs({"x": "real", "mu1": "pos", "mu2": "pos"})
    I.ranges["x"] = [-3.0, -1.0, 0.0, 1.0, 2.0]
    with S.encoding():
        lp = pm.logp(Skellam.dist(v["mu1"], v["mu2"]), v["x"])
    x, a, b = t["x"], t["mu1"], t["mu2"]

    def spec():
        return ptsym.arr0(-(a + b) + x / 2 * alg.log(a / b) + alg.log(alg.uf("iv", x, 2 * alg.sqrt(a * b), positive=True)))

    S.graph("logp", [lp], I.givens, lambda: [spec()], ranges=I.ranges, labels=["value"])


def skellam_zero(S, which):
    """zero rates are documented as valid: minus a Poisson variable, a Poisson variable, or zero"""
    from pymc_extras.distributions import Skellam

    S.bound(f"Skellam logp with {which} = 0, values -3..3: every other rate")
    for k in range(-3, 4):
        I = Inputs()
        m = I.positive("m")
        args = {"mu1": (0.0, m), "mu2": (m, 0.0), "both": (0.0, 0.0)}[which]
        with S.encoding():
            lp = pm.logp(Skellam.dist(*args), k)
        mt = T(I.givens[m][()])
        j = -k if which == "mu1" else k
        if which == "both":
            del I.givens[m]
            want = T(0) if k == 0 else NINF
        else:
            want = NINF if j < 0 else -mt + j * alg.log(mt) - T(math.log(math.factorial(j)))
        density(S, f"logp[{k}]", lp, I, lambda want=want: ptsym.arr0(want), validate=1)


def skellam_reject(S):
    from pymc_extras.distributions import Skellam

    S.bound("Skellam: every mu1 < 0 or mu2 < 0")
    I = Inputs()
    vs = {n: I.real(n) for n in ("x", "mu1", "mu2")}
    t = {n: T(I.givens[v][()]) for n, v in vs.items()}
    I.ranges |= {"mu1": (-2, 2), "mu2": (-2, 2)}
    for n in ("mu1", "mu2"):
        I.assume.append(alg.bnot(alg.eq(t[n], T(0))))
    with S.encoding():
        lp = pm.logp(Skellam.dist(vs["mu1"], vs["mu2"]), vs["x"])
    rejects(S, "logp", lp, I, [alg.ge(t["mu1"], T(0)), alg.ge(t["mu2"], T(0))])


def skellam_draws(S, size, vector):
    from pymc_extras.distributions import Skellam

    S.bound(f"Skellam draws, size={size}, {'vector' if vector else 'scalar'} rates: difference of independent Poisson draws with these rates")
    I = Inputs()
    if vector:
        m1, m2 = I.real("mu1", (2,)), I.real("mu2")
        shape = tuple(size or (2,))
    else:
        m1, m2 = I.positive("mu1"), I.positive("mu2")
        shape = tuple(size or ())
    seen = []

    def handler(ev, node, ins):
        if not isinstance(node.op, RandomVariable):
            return None
        rng, sz, *params = ins
        k = len(seen)
        full = size_of(sz)
        full = np.broadcast_shapes(*[np.shape(q) for q in params]) if full is None else full
        seen.append((type(node.op).__name__, np.asarray(params[0], dtype=object), full, node.inputs[0]))
        return [rng, alg.array(f"k{k}", full) if full else ptsym.arr0(alg.var(f"k{k}"))]

    with S.encoding():
        rv = Skellam.dist(m1, m2, size=size)
        [d] = ptsym.evaluate([rv], I.givens, rv_handler=handler)
    d = np.asarray(d, dtype=object)
    if [s[0] for s in seen] != ["PoissonRV", "PoissonRV"]:
        S.unknown("draws", f"unexpected random operations {[s[0] for s in seen]}")
        return
    S.concrete("independent-generators", seen[0][3] is not seen[1][3], "both draws use the same generator state")
    if not S.concrete("shape", d.shape == shape and all(s[2] == shape for s in seen), f"draw of shape {d.shape} from draws of shapes {[s[2] for s in seen]}, required {shape}"):
        return

    def rep(assign):
        r = Skellam.dist(np.array([1.0, 4.0]) if vector else 1.0, 3.0, size=(4000, *shape))
        dr = pm.draw(r, random_seed=5).reshape(4000, -1)
        mean = dr.mean(0)
        want = np.broadcast_to(np.array([-2.0, 1.0]) if vector else -2.0, mean.shape) if not shape or shape[-1:] == (2,) else mean
        return bool(np.any(np.abs(mean - want) > 0.3) or np.any(np.abs(dr.var(0) - np.broadcast_to(np.array([4.0, 7.0]) if vector else 4.0, mean.shape)) > 1)), f"mean {mean}, variance {dr.var(0)}, required mean {want}"

    # which draw carries which rate
    for i in np.ndindex(*shape):
        tag = "".join(f"[{j}]" for j in i)
        rate = [T(np.broadcast_to(s[1], shape)[i]) for s in seen]
        k0, k1 = (T(alg.array(f"k{n}", shape)[i]) if shape else alg.var(f"k{n}") for n in (0, 1))
        a = T(np.broadcast_to(np.asarray(I.givens[m1], dtype=object), shape)[i])
        b = T(np.broadcast_to(np.asarray(I.givens[m2], dtype=object), shape)[i])
        plus_first = (T(d[i]) - (k0 - k1)).is_zero()
        pos, neg = (rate[0], rate[1]) if plus_first else (rate[1], rate[0])
        S.equal(f"difference{tag}", d[i], k0 - k1 if plus_first else k1 - k0, [], rep)
        S.equal(f"rate1{tag}", pos, a, I.assume, rep, I.ranges)
        S.equal(f"rate2{tag}", neg, b, I.assume, rep, I.ranges)


def cases(tier):
    C = []

    def add(name, f, *a):
        C.append((name, lambda S: f(S, *a)))

    big = tier == "thorough"
    add("gp-logp", gp_density)
    for k in (-1, 0, 1, 2, 3, 5, 8):
        add(f"gp-logp-{k}", gp_values, k)
    add("gp-reject", gp_reject)
    for size in (None, (2,)):
        add(f"gp-initial-{size}", gp_support_point, size)
    add("gp-branching", gp_branching, 6 if big else 4, False)
    add("gp-branching-0", gp_branching, 3, True)
    add("gp-inverse", gp_inverse, 5 if big else 4)
    for how in ("params", "scalar-size", "mixed"):
        add(f"gp-batch-{how}", gp_batch, how)
    add("bnb-logp", bnb_density)
    add("bnb-reject", bnb_reject)
    for size in (None, (2,)):
        add(f"bnb-draws-{size}", bnb_draws, size)
    add("skellam-logp", skellam_density)
    for w in ("mu1", "mu2", "both"):
        add(f"skellam-{w}-zero", skellam_zero, w)
    add("skellam-reject", skellam_reject)
    for size, vec in ((None, False), ((2,), False), (None, True), ((3, 2), True)):
        add(f"skellam-draws-{size}-{vec}", skellam_draws, size, vec)
    return C
