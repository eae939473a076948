TITLE = "Marginalizing discrete variables preserves the joint density"
ASSUMPTIONS = ["real arithmetic", "the oracle is PyMC's own joint log density of the unmarginalized model",
               "a model the transformation declares unsupported (NotImplementedError) counts as refused, unless the docstring or the case says it must be supported"]
import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks.marg import run_marginal


def programs(tier):
    P = []

    def prog(name, bound, domains, **kw):
        def deco(f):
            def build(I):
                with pm.Model(coords={"g": ["a", "b"], "h": [1, 2, 3]}) as m:
                    f(I)
                return m
            P.append((name, bound, domains, build, kw))
            return f
        return deco

    B = {"x": (0, 1)}
    must = dict(unsupported_ok=False)

    @prog("bernoulli-scalar", "one Bernoulli, one Normal", B, elem=dict(y=()), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        pm.Normal("y", mu=pm.math.switch(x, I.real("a"), I.real("b")), sigma=I.positive("s"))

    @prog("bernoulli-logit", "Bernoulli given by logit_p", B, **must)
    def _(I):
        x = pm.Bernoulli("x", logit_p=I.real("l"))
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0)

    @prog("bernoulli-batch", "batch of 2, element-wise dependent", B, elem=dict(y=(0,)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.Normal("y", mu=pm.math.switch(x, I.real("a", (2,)), I.real("b")), sigma=2.0, shape=(2,))

    @prog("docstring", "class docstring example: batch of 3, observed data", B, **must)
    def _(I):
        p = pm.Beta("p", 1, 1)
        x = pm.Bernoulli("x", p=p, shape=(3,))
        pm.Normal("y", pm.math.switch(x, -10, 10), observed=[10, 10, -10])

    @prog("batch-left", "dependent adds a batch dimension on the left", B, elem=dict(y=(None, 0)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0, shape=(3, 2))

    @prog("batch-right", "dependent adds a batch dimension on the right", B, elem=dict(y=(0, None)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.Normal("y", mu=x[:, None] * I.real("a", (3,)), sigma=1.0, shape=(2, 3))

    @prog("transposed", "2x2 batch used transposed", B, elem=dict(y=(1, 0)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2, 2)), shape=(2, 2))
        pm.Normal("y", mu=x.T * I.real("a", (2, 2)), sigma=1.0, shape=(2, 2))

    @prog("two-dependents", "two dependents aligned differently with a 2x2 batch, extra dimensions (as in the documentation)", B, elem=dict(y1=(1, 0, None), y2=(None, 0, 1)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2, 2)), shape=(2, 2))
        pm.Normal("y1", mu=x.T[..., None] * 2, sigma=1.0, shape=(2, 2, 2))
        pm.Normal("y2", mu=x * I.real("a"), sigma=1.0, shape=(2, 2, 2))

    for perm in [(1, 2, 0), (2, 0, 1), (2, 1, 0), (1, 0, 2), (0, 2, 1)]:
        @prog("perm-%d%d%d" % perm, f"2x1x2 batch used with axes permuted {perm}", B, elem=dict(y=perm), **must)
        def _(I, perm=perm):
            x = pm.Bernoulli("x", p=I.prob("p", (2, 1, 2)), shape=(2, 1, 2))
            shp = tuple((2, 1, 2)[i] for i in perm)
            pm.Normal("y", mu=x.transpose(*perm) * I.real("a", shp), sigma=1.0, shape=shp)

    if tier == "thorough":
        for perm in [(1, 2, 0), (2, 0, 1)]:
            @prog("perm222-%d%d%d" % perm, f"2x2x2 batch used with axes permuted {perm}", B, elem=dict(y=perm), **must)
            def _(I, perm=perm):
                x = pm.Bernoulli("x", p=I.prob("p"), shape=(2, 2, 2))
                pm.Normal("y", mu=x.transpose(*perm), sigma=1.0, shape=(2, 2, 2))

    @prog("perm-two-dependents", "two dependents, one with axes permuted cyclically", B, elem=dict(y1=(0, 1, 2), y2=(1, 2, 0)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (1, 2, 2)), shape=(1, 2, 2))
        pm.Normal("y1", mu=x * I.real("a"), sigma=1.0, shape=(1, 2, 2))
        pm.Normal("y2", mu=x.transpose(1, 2, 0) * I.real("b"), sigma=1.0, shape=(2, 2, 1))

    @prog("categorical", "3 categories, symbolic probabilities, indexing", {"x": (0, 1, 2)}, elem=dict(y=()), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (3,)))
        pm.Normal("y", mu=I.real("a", (3,))[x], sigma=1.0)

    @prog("categorical-batch", "batch of 2 with its own probabilities, array indexing", {"x": (0, 1, 2)}, elem=dict(y=(0,)), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2, 3)), shape=(2,))
        pm.Normal("y", mu=I.real("a", (3,))[x], sigma=1.0, shape=(2,))

    @prog("categorical-logit", "Categorical given by logits", {"x": (0, 1)})
    def _(I):
        x = pm.Categorical("x", logit_p=I.real("l", (2,)))
        pm.Normal("y", mu=I.real("a", (2,))[x], sigma=1.0)

    @prog("index-rows", "array indexing that leaves a trailing dimension", {"x": (0, 1)}, elem=dict(y=(0, None)), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2,)), shape=(2,))
        pm.Normal("y", mu=I.real("a", (2, 3))[x], sigma=1.0, shape=(2, 3))

    @prog("index-cols", "array indexing of the second axis", {"x": (0, 1)}, elem=dict(y=(None, 0)), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2,)), shape=(2,))
        pm.Normal("y", mu=I.real("a", (3, 2))[:, x], sigma=1.0, shape=(3, 2))

    @prog("index-pair", "array indexing with a constant index in the other axis", {"x": (0, 1)}, elem=dict(y=(0,)), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2,)), shape=(2,))
        pm.Normal("y", mu=I.real("a", (2, 2))[np.array([1, 0]), x], sigma=1.0, shape=(2,))

    @prog("index-split", "array indices separated by a slice (result axis moves to the front)", {"x": (0, 1)}, elem=dict(y=(0, None)), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2,)), shape=(2,))
        pm.Normal("y", mu=I.real("a", (2, 3, 2))[np.array([1, 0]), :, x], sigma=1.0, shape=(2, 3))

    @prog("index-2d", "2x2 batch indexing a vector, then transposed", {"x": (0, 1)}, elem=dict(y=(1, 0)), **must)
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2,)), shape=(2, 2))
        pm.Normal("y", mu=I.real("a", (2,))[x].T * I.real("b", (2, 2)), sigma=1.0, shape=(2, 2))

    @prog("indexed-dummy-dims", "indexing of unrelated dimensions of an expanded variable", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        e = pt.stack([x * I.real("a", (2,)), x * I.real("b")]) if False else (x[None] * I.real("a", (3, 2)))
        pm.Normal("y", mu=e[1:], sigma=1.0, shape=(2, 2))

    @prog("indexed-dummy-array", "array indexing of unrelated dimensions of an expanded variable", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        e = x[None] * I.real("a", (3, 2))
        pm.Normal("y", mu=e[np.array([2, 0, 2])], sigma=1.0, shape=(3, 2))

    @prog("discrete-uniform", "DiscreteUniform on 2..4", {"x": (2, 3, 4)}, **must)
    def _(I):
        x = pm.DiscreteUniform("x", 2, 4)
        pm.Normal("y", mu=x * I.real("a"), sigma=I.positive("s"))

    @prog("discrete-uniform-negative", "DiscreteUniform on -1..1, batch of 2", {"x": (-1, 0, 1)}, elem=dict(y=(0,)), **must)
    def _(I):
        x = pm.DiscreteUniform("x", -1, 1, shape=(2,))
        pm.Normal("y", mu=x * I.real("a", (2,)), sigma=1.0, shape=(2,))

    @prog("mvnormal", "multivariate dependent of each batch element", B, elem=dict(y=(0,)))
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.MvNormal("y", mu=x[:, None] * I.real("a", (2,)), cov=np.array([[2.0, 0.5], [0.5, 1.0]]), shape=(2, 2))

    @prog("mvnormal-scalar", "multivariate dependent of a scalar", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        pm.MvNormal("y", mu=x * I.real("a", (2,)), cov=np.eye(2), shape=(2,))

    @prog("mvnormal-batch-left", "multivariate dependent with a further batch dimension", B, elem=dict(y=(None, 0)))
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.MvNormal("y", mu=x[:, None] * I.real("a", (2,)), cov=np.eye(2), shape=(2, 2, 2))

    @prog("mvnormal-mixed", "univariate and multivariate dependents of the same batch", B, elem=dict(y1=(0,), y2=(0, None)))
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.MvNormal("y1", mu=x[:, None] * I.real("a", (2,)), cov=np.eye(2), shape=(2, 2))
        pm.Normal("y2", mu=x[:, None] + I.real("b", (3,)), sigma=1.0, shape=(2, 3))

    @prog("mvnormal-core", "the batch is the core dimension of a multivariate dependent", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.MvNormal("y", mu=x * I.real("a"), cov=np.array([[2.0, 0.5], [0.5, 1.0]]), shape=(2,))

    two = {"x": (0, 1), "z": (0, 1)}

    def chain(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        z = pm.Bernoulli("z", p=pm.math.switch(x, I.prob("q0"), I.prob("q1")))
        pm.Normal("y", mu=pm.math.switch(z, I.real("a"), I.real("b")) + x, sigma=1.0)

    prog("chain", "x -> z -> y, both marginalized", two, **must)(chain)
    prog("chain-order", "x -> z -> y, both marginalized, named in the opposite order", two, order=["z", "x"], **must)(chain)

    @prog("two-parents", "two marginalized variables with one dependent", two, **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        z = pm.Bernoulli("z", p=I.prob("q"))
        pm.Normal("y", mu=x * I.real("a") + z * I.real("b"), sigma=1.0)

    @prog("two-parents-batch", "two marginalized batches with one dependent, one of them transposed", two, timeout_ms=60000)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        z = pm.Bernoulli("z", p=I.prob("q"), shape=(2,))
        pm.Normal("y", mu=x * I.real("a") + z * I.real("b"), sigma=1.0, shape=(2,))

    @prog("two-parents-outer", "two marginalized batches acting on different axes of one dependent", two)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        z = pm.Bernoulli("z", p=I.prob("q"))
        pm.Normal("y", mu=x[:, None] * I.real("a") + z * I.real("b"), sigma=1.0, shape=(2, 2))

    @prog("nested-batch", "an outer scalar selects for a batch of inner variables", two)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.2, I.prob("q")), shape=(2,))
        pm.Normal("y", mu=z * I.real("a"), sigma=1.0, shape=(2,))

    @prog("nested-batch-aligned", "a batch of outer variables, each with a batch of inner ones", two, **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        z = pm.Bernoulli("z", p=pm.math.switch(x[:, None], 0.25, I.prob("q")), shape=(2, 2))
        pm.Normal("y", mu=z * I.real("a"), sigma=1.0, shape=(2, 2))

    @prog("nested-transposed", "outer batch on the other axis of the inner batch, observed transposed", two)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        z = pm.Bernoulli("z", p=pm.math.switch(x[:, None], 0.25, I.prob("q")), shape=(2, 2))
        pm.Normal("y", mu=z.T * I.real("a"), sigma=1.0, shape=(2, 2))

    @prog("nested-mvnormal", "outer batch, inner batch and a multivariate dependent", two)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, I.prob("q")), shape=(2,))
        pm.MvNormal("y", mu=z[:, None] * I.real("a", (2,)), cov=np.eye(2), shape=(2, 2))

    @prog("dependents-chain", "second dependent uses both the first one and the marginalized variable", B, **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        y1 = pm.Normal("y1", mu=x * I.real("a"), sigma=1.0)
        pm.Normal("y2", mu=y1 * (1 - x) + I.real("b"), sigma=1.0)

    @prog("dependents-different-shapes", "dependents with a different number of extra dimensions", B, elem=dict(y1=(0,), y2=(0, None), y3=(None, None, 0)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y1", mu=x * I.real("a"), sigma=1.0, shape=(2,))
        pm.Normal("y2", mu=x[:, None] * I.real("b"), sigma=1.0, shape=(2, 3))
        pm.Normal("y3", mu=-x, sigma=1.0, shape=(1, 2, 2))

    @prog("transformed-dependent", "free positive dependent (log transform, Jacobian included)", B, **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        s = pm.Exponential("s", lam=pm.math.switch(x, 1.0, 3.0))
        pm.Normal("y", mu=I.real("a"), sigma=s)

    @prog("other-variables", "unrelated variables, potentials and priors of the parameters", B, **must)
    def _(I):
        mu = pm.Normal("mu", 0, 1, shape=(2,))
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=mu * x, sigma=1.0, shape=(2,))
        w = pm.Normal("w", 1.0, 1.0)
        pm.Potential("pot", -(w**2) * I.real("c"))

    @prog("prior-of-p", "probability with a prior (transformed), dims", B, **must)
    def _(I):
        p = pm.Beta("p", 2, 3, dims="g")
        x = pm.Bernoulli("x", p=p, dims="g")
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0, dims="g")

    @prog("shared-data", "pm.Data in the dependent and observed data", B, **must)
    def _(I):
        d = pm.Data("d", np.array([0.5, -1.0]))
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=x * d * I.real("a"), sigma=1.0, observed=np.array([0.25, 1.5]))

    @prog("symbolic-dist", "dependent defined by CustomDist", B, elem=dict(y=(0,)))
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))

        def dist(mu, size):
            return pm.Normal.dist(mu, 1.0, size=size) + 1.0
        pm.CustomDist("y", x * I.real("a"), dist=dist, shape=(2,))

    @prog("symbolic-dist-batch", "CustomDist dependent with a further batch dimension", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))

        def dist(mu, size):
            return pm.math.exp(pm.Normal.dist(mu, 1.0, size=size))
        pm.CustomDist("y", x * I.real("a"), dist=dist, shape=(2, 2))

    @prog("mixture-dependent", "dependent is a mixture", B, elem=dict(y=(0,)))
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.NormalMixture("y", w=[0.25, 0.75], mu=pt.stack([x * 1.0, -x * I.real("a")], axis=-1) if False else x[:, None] * I.real("a", (2,)), sigma=1.0, shape=(2,))

    @prog("poisson-dependent", "discrete dependent", B, **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Poisson("y", mu=pm.math.switch(x, I.positive("l0"), I.positive("l1")), observed=np.array([2, 0]))

    @prog("reduced-all", "dependent uses the sum of a batch", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(3,))
        pm.Normal("y", mu=x.sum() * I.real("a"), sigma=1.0)

    @prog("reduced-axis0", "dependent uses the sum over the first axis", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2, 2))
        pm.Normal("y", mu=x.sum(axis=0) * I.real("a"), sigma=1.0, shape=(2,))

    @prog("reduced-axis1", "dependent uses the sum over the last axis", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2, 2))
        pm.Normal("y", mu=x.sum(axis=1) * I.real("a"), sigma=1.0, shape=(2,))

    @prog("reduced-max", "dependent uses the maximum of a batch", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=x.max() * I.real("a"), sigma=1.0, shape=(2,))

    @prog("reduced-extra", "sum over an unrelated axis", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=(x[None, :] * I.real("a", (3, 2))).sum(axis=0), sigma=1.0, shape=(2,))

    @prog("reduced-extra-last", "sum over an unrelated last axis", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=(x[:, None] * I.real("a", (2, 3))).sum(axis=-1), sigma=1.0, shape=(2,))

    @prog("sliced", "dependent uses one element of a batch", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=x[0] * I.real("a") + x[1] * I.real("b"), sigma=1.0)

    @prog("reversed", "dependent uses the batch in reverse order", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.Normal("y", mu=x[::-1] * I.real("a"), sigma=1.0, shape=(2,))

    @prog("gathered", "dependent gathers elements of the batch", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p", (2,)), shape=(2,))
        pm.Normal("y", mu=x[np.array([0, 1, 1])] * I.real("a"), sigma=1.0, shape=(3,))

    @prog("outer-product", "dependent mixes the batch with itself", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=x[:, None] * x[None, :] * I.real("a"), sigma=1.0, shape=(2, 2))

    @prog("matmul", "dependent multiplies the batch by a matrix", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=pt.dot(I.real("A", (2, 2)), x), sigma=1.0, shape=(2,))

    @prog("cumulated", "dependent uses a cumulative sum of the batch", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=pt.cumsum(x) * I.real("a"), sigma=1.0, shape=(2,))

    @prog("broadcast-dim1", "a length-one dimension broadcast by the dependent", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(1,))
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0, shape=(2,))

    @prog("broadcast-dim1-mu", "a length-one dimension broadcast against a parameter", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2, 1))
        pm.Normal("y", mu=x + I.real("a", (2, 2)), sigma=1.0, shape=(2, 2))

    @prog("broadcast-dim1-index", "a length-one index broadcast against another index", {"x": (0, 1)})
    def _(I):
        x = pm.Categorical("x", p=I.simplex("p", (2,)), shape=(1,))
        pm.Normal("y", mu=I.real("a", (2, 2))[np.array([0, 1]), x], sigma=1.0, shape=(2,))

    @prog("length-one", "a length-one batch kept as such", B, elem=dict(y=(0,)), **must)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(1,))
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0, shape=(1,))

    @prog("length-one-left", "a length-one batch, dependent batched on the left", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(1,))
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0, shape=(2, 1))

    @prog("squeezed", "a squeezed length-one dimension", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(1, 2))
        pm.Normal("y", mu=pt.squeeze(x, 0) * I.real("a"), sigma=1.0, shape=(2,))

    @prog("deterministic", "a Deterministic of the marginalized variable", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        d = pm.Deterministic("d", x * I.real("a"))
        pm.Normal("y", mu=d, sigma=1.0)

    @prog("potential", "a Potential of the marginalized variable", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"))
        pm.Normal("y", mu=x * I.real("a"), sigma=1.0)
        pm.Potential("pot", x * I.real("c"))

    @prog("wrong-alignment", "dependent size given by parameters only", B)
    def _(I):
        x = pm.Bernoulli("x", p=I.prob("p"), shape=(2,))
        pm.Normal("y", mu=x * I.real("a"), sigma=np.ones(2))
    return P


def cases(tier):
    out = []
    for name, bound, domains, build, kw in programs(tier):
        def run(S, bound=bound, build=build, domains=domains, kw=kw):
            S.bound(bound + "; continuous values and named parameters symbolic")
            run_marginal(S, build, domains, **kw)
        out.append((name, run))
    return out
