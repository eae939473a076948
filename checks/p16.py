TITLE = "Marginalizing a Markov chain gives the hidden Markov model likelihood"
ASSUMPTIONS = ["real arithmetic", "the oracle sums PyMC's own emission densities over every state path, with path probabilities written out here",
               "a model the transformation declares unsupported (NotImplementedError) counts as refused, unless the case says it must be supported"]
import itertools
import warnings

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks.marg import Inputs, inputs_of, lse, rv_shape, value_givens
from vlib import alg, ptsym
from vlib.alg import T


def run_hmm(S, build, *, names=("c",), discrete=None, unsupported_ok=True, validate=1):
    """build(I) -> (model, path_logp): path_logp(states, I) is the log probability of a state path array"""
    from pymc_extras.model.marginal.marginal_model import marginalize

    discrete = discrete or {}
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model, K, path_prob = build(I)
        try:
            with S.encoding():
                mm = marginalize(model, [*names, *discrete])
                lp = mm.logp()
        except NotImplementedError as e:
            if unsupported_ok:
                S.concrete("refused", True, str(e))
                return
            S.violation("refused", f"refuses a supported model: {e}")
            return
        skip = {*names, *discrete}
        vg = value_givens(model, I, skip=skip)
        # emissions and everything else: the model's own log densities of the other variables
        others = [rv for rv in model.basic_RVs if rv.name not in names]
        rest = model.logp(vars=others + model.potentials)
    by_name = {vv.name: a for vv, a in vg.items()}
    givens = inputs_of([lp], {**I.givens, **{vv: by_name[vv.name] for rv, vv in mm.rvs_to_values.items() if vv.name in by_name}})
    shapes = {n: rv_shape(model[n], I) for n in skip}

    def spec():
        grids = []
        for n in [*names, *discrete]:
            dom = range(K) if n in names else discrete[n]
            grids.append([np.array(v, dtype="int64").reshape(shapes[n]) for v in itertools.product(dom, repeat=int(np.prod(shapes[n])))])
        terms = []
        for combo in itertools.product(*grids):
            asg = dict(zip([*names, *discrete], combo))
            g = {**I.givens, **vg}
            for n, v in asg.items():
                g[model.rvs_to_values[model[n]]] = v
            [r] = ptsym.evaluate([rest], inputs_of([rest], g))
            w = alg.exp(T(np.asarray(r, dtype=object)[()]))
            terms.append(w * path_prob(asg, I))
        tot = T(0)
        for t in terms:
            tot = tot + t
        return [ptsym.arr0(alg.log(tot))]

    S.graph("logp", [lp], givens, spec, assumptions=I.assume, ranges=I.ranges, validate=validate, timeout_ms=30000)


def chain_prob(states, P, p0):
    """product over the paths in `states` (time last)"""
    out = T(1)
    for idx in np.ndindex(*states.shape[:-1]):
        s = states[idx]
        out = out * T(p0[s[0]])
        for a, b in zip(s[:-1], s[1:]):
            out = out * T(P[a, b])
    return out


def programs(tier):
    from pymc_extras.distributions import DiscreteMarkovChain
    out = []

    def prog(name, bound, **kw):
        def deco(f):
            out.append((name, bound, f, kw))
            return f
        return deco

    must = dict(unsupported_ok=False)

    def simple(I, K, shape, emit, init=True, logit=False):
        with pm.Model() as m:
            Pv = I.simplex("P", (K, K)) if not logit else None
            if init:
                p0v = I.simplex("q", (K,))
                d = pm.Categorical.dist(p=p0v)
                p0 = I.givens[p0v]
            else:
                d, p0 = None, np.array([T(1) / K] * K, dtype=object)
            c = DiscreteMarkovChain("c", P=Pv, init_dist=d, shape=shape)
            emit(I, c)
        P = I.givens[Pv]
        return m, K, lambda asg, I: chain_prob(asg["c"], P, p0)

    @prog("k2-t3", "2 states, 3 steps, Normal emissions with their own means", **must)
    def _(I):
        return simple(I, 2, (3,), lambda I, c: pm.Normal("y", mu=I.real("a", (2,))[c], sigma=1.0, shape=(3,)))

    @prog("k3-t3", "3 states, 3 steps", **must)
    def _(I):
        return simple(I, 3, (3,), lambda I, c: pm.Normal("y", mu=I.real("a", (3,))[c], sigma=1.0, shape=(3,)))

    @prog("k2-t2-default-init", "2 states, 2 steps, no initial distribution given", **must)
    def _(I):
        return simple(I, 2, (2,), lambda I, c: pm.Normal("y", mu=c * I.real("a"), sigma=I.positive("s"), shape=(2,)), init=False)

    @prog("k2-t4-default-init", "2 states, 4 steps, no initial distribution given", **must)
    def _(I):
        return simple(I, 2, (4,), lambda I, c: pm.Normal("y", mu=c * I.real("a"), sigma=1.0, shape=(4,)), init=False)

    @prog("two-emissions", "two emission streams of one chain", **must)
    def _(I):
        def emit(I, c):
            pm.Normal("y1", mu=c * I.real("a"), sigma=1.0, shape=(3,))
            pm.Normal("y2", mu=I.real("b", (2,))[c], sigma=2.0, shape=(3,))
        return simple(I, 2, (3,), emit)

    @prog("poisson-emission", "observed counts", **must)
    def _(I):
        return simple(I, 2, (3,), lambda I, c: pm.Poisson("y", mu=pm.math.switch(c, I.positive("l1"), I.positive("l0")), observed=np.array([1, 0, 2])))

    @prog("emission-extra-left", "several observations per step, extra dimension on the left")
    def _(I):
        return simple(I, 2, (2,), lambda I, c: pm.Normal("y", mu=c * I.real("a"), sigma=1.0, shape=(2, 2)))

    @prog("emission-extra-right", "several observations per step, extra dimension on the right")
    def _(I):
        return simple(I, 2, (2,), lambda I, c: pm.Normal("y", mu=c[:, None] * I.real("a", (3,)), sigma=1.0, shape=(2, 3)))

    @prog("emission-multivariate", "multivariate emission at each step")
    def _(I):
        return simple(I, 2, (2,), lambda I, c: pm.MvNormal("y", mu=c[:, None] * I.real("a", (2,)), cov=np.eye(2), shape=(2, 2)))

    @prog("emission-multivariate-batch", "multivariate emission with further batch dimension")
    def _(I):
        return simple(I, 2, (2,), lambda I, c: pm.MvNormal("y", mu=c[:, None] * I.real("a", (2,)), cov=np.eye(2), shape=(2, 2, 2)))

    @prog("batch-chains", "two independent chains with shared transitions", **must)
    def _(I):
        return simple(I, 2, (2, 2), lambda I, c: pm.Normal("y", mu=c * I.real("a"), sigma=1.0, shape=(2, 2)))

    @prog("batch-chains-transposed", "two chains observed with time first")
    def _(I):
        return simple(I, 2, (2, 2), lambda I, c: pm.Normal("y", mu=c.T * I.real("a", (2, 2)), sigma=1.0, shape=(2, 2)))

    @prog("batch-chains-mixed", "two chains, one stream time first and one time last with an extra dimension")
    def _(I):
        def emit(I, c):
            pm.Normal("y1", mu=c.T * I.real("a"), sigma=1.0, shape=(3, 2))
            pm.Normal("y2", mu=c[..., None] + I.real("b"), sigma=1.0, shape=(2, 3, 1))
        return simple(I, 2, (2, 3) if tier == "thorough" else (2, 3), emit, init=False)

    @prog("batch-2d-permuted", "2x1 batch of chains observed with permuted axes")
    def _(I):
        return simple(I, 2, (2, 1, 2), lambda I, c: pm.Normal("y", mu=c.transpose(2, 0, 1) * I.real("a"), sigma=1.0, shape=(2, 2, 1)), init=False)

    @prog("batch-2d-cycle", "2x1 batch of chains observed with cyclically permuted axes")
    def _(I):
        return simple(I, 2, (1, 2, 2), lambda I, c: pm.Normal("y", mu=c.transpose(1, 2, 0) * I.real("a", (2, 2, 1)), sigma=1.0, shape=(2, 2, 1)), init=False)

    @prog("slice-of-time", "emission uses part of the chain")
    def _(I):
        return simple(I, 2, (3,), lambda I, c: pm.Normal("y", mu=c[1:] * I.real("a"), sigma=1.0, shape=(2,)))

    @prog("sum-over-time", "emission uses the sum over time")
    def _(I):
        return simple(I, 2, (3,), lambda I, c: pm.Normal("y", mu=c.sum() * I.real("a"), sigma=1.0))

    @prog("lags-2", "two lags are declared unsupported")
    def _(I):
        with pm.Model() as m:
            Pv = I.simplex("P", (2, 2, 2))
            c = DiscreteMarkovChain("c", P=Pv, n_lags=2, init_dist=pm.Categorical.dist(p=[0.5, 0.5]), shape=(3,))
            pm.Normal("y", mu=c * I.real("a"), sigma=1.0, shape=(3,))
        P = I.givens[Pv]

        def prob(asg, I):
            s = asg["c"]
            return T(1) / 4 * T(P[s[0], s[1], s[2]])
        return m, 2, prob

    @prog("init-bernoulli", "initial state from a Bernoulli distribution")
    def _(I):
        with pm.Model() as m:
            Pv, p = I.simplex("P", (2, 2)), I.prob("p")
            c = DiscreteMarkovChain("c", P=Pv, init_dist=pm.Bernoulli.dist(p=p), shape=(2,))
            pm.Normal("y", mu=c * I.real("a"), sigma=1.0, shape=(2,))
        P, p = I.givens[Pv], I.givens[p][()]
        return m, 2, lambda asg, I: chain_prob(asg["c"], P, [1 - p, p])

    @prog("logit-P", "transitions given by logits")
    def _(I):
        with pm.Model() as m:
            L = I.real("L", (2, 2))
            c = DiscreteMarkovChain("c", logit_P=L, init_dist=pm.Categorical.dist(p=[0.25, 0.75]), shape=(2,))
            pm.Normal("y", mu=c * I.real("a"), sigma=1.0, shape=(2,))
        Lg = I.givens[L]
        E = np.array([[alg.exp(x) for x in r] for r in Lg], dtype=object)
        P = np.array([[E[i, j] / (E[i, 0] + E[i, 1]) for j in range(2)] for i in range(2)], dtype=object)
        return m, 2, lambda asg, I: chain_prob(asg["c"], P, [T(0.25), T(0.75)])

    def with_switch(I, shape, zshape, mu, yshape):
        with pm.Model() as m:
            Pv, p = I.simplex("P", (2, 2)), I.prob("p")
            c = DiscreteMarkovChain("c", P=Pv, init_dist=pm.Categorical.dist(p=[0.25, 0.75]), shape=shape)
            z = pm.Bernoulli("z", p=p, shape=zshape)
            pm.Normal("y", mu=mu(I, c, z), sigma=1.0, shape=yshape)
        P = I.givens[Pv]
        return m, 2, lambda asg, I: chain_prob(asg["c"], P, [T(0.25), T(0.75)])

    sw = dict(discrete={"z": (0, 1)})

    @prog("switch-scalar", "a marginalized scalar acting on every emission", **sw)
    def _(I):
        return with_switch(I, (2,), (), lambda I, c, z: c * I.real("a") + z * I.real("b"), (2,))

    @prog("switch-per-step", "a marginalized variable per step", **sw)
    def _(I):
        return with_switch(I, (2,), (2,), lambda I, c, z: c * I.real("a") + z * I.real("b"), (2,))

    @prog("switch-per-chain", "a marginalized variable per chain", **sw)
    def _(I):
        return with_switch(I, (2, 2), (2,), lambda I, c, z: c * I.real("a") + z[:, None] * I.real("b"), (2, 2))

    @prog("switch-batch", "a marginalized scalar acting on a batch of chains", **sw)
    def _(I):
        return with_switch(I, (2, 2), (), lambda I, c, z: c * I.real("a") + z * I.real("b"), (2, 2))

    @prog("prior-P", "transition matrix with a Dirichlet prior", **must)
    def _(I):
        with pm.Model() as m:
            P = pm.Dirichlet("P", a=np.ones(2), shape=(2, 2))
            c = DiscreteMarkovChain("c", P=P, init_dist=pm.Categorical.dist(p=[0.5, 0.5]), shape=(2,))
            pm.Normal("y", mu=c * I.real("a"), sigma=1.0, observed=np.array([0.5, -1.0]))
        vv = m.rvs_to_values[m["P"]]
        a = alg.array(vv.name, (2, 1))

        def prob(asg, I):
            P = np.empty((2, 2), dtype=object)
            for i in range(2):
                # inverse of PyMC's simplex transform, y -> softmax([y, -sum(y)])
                e, f = alg.exp(a[i, 0]), alg.exp(-a[i, 0])
                P[i] = [e / (e + f), f / (e + f)]
            return chain_prob(asg["c"], P, [T(0.5), T(0.5)])
        return m, 2, prob

    return out


def cases(tier):
    out = []
    for name, bound, f, kw in programs(tier):
        def run(S, bound=bound, f=f, kw=kw):
            S.bound(bound + "; transition probabilities, initial probabilities, means and emissions symbolic")
            run_hmm(S, f, **kw)
        out.append((name, run))
    return out
