TITLE = "recover_marginals returns the exact conditional probabilities"
ASSUMPTIONS = ["real arithmetic",
               "the function graphs recover_marginals compiles are the ones decided symbolically; its bookkeeping over chains and draws is replayed concretely",
               "the oracle conditions PyMC's own joint density of the unmarginalized model on every other value, other marginalized variables summed out"]
import contextlib
import itertools
import warnings

import arviz as az
import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt

from pytensor.graph.basic import ancestors
from pytensor.tensor.random.op import RandomVariable

from checks.marg import Inputs, assignments, inputs_of, rv_shape, value_givens
from vlib import alg, ptsym
from vlib.alg import T
from vlib.harness import close


@contextlib.contextmanager
def recorded():
    """record the graphs of every PyTensor function compiled inside, and what they were called with"""
    log = []
    orig = pytensor.function

    def wrapper(inputs, outputs=None, *a, **k):
        fn = orig(inputs, outputs, *a, **k)
        rec = {"inputs": [getattr(i, "variable", i) for i in inputs], "outputs": outputs, "calls": []}
        log.append(rec)

        class Fn:
            def __call__(self, *aa, **kk):
                r = fn(*aa, **kk)
                rec["calls"].append((aa, kk, r))
                return r

            def __getattr__(self, n):
                return getattr(fn, n)
        return Fn()
    import sys
    patched = []
    for mod in list(sys.modules.values()):
        for attr in ("function",):
            if getattr(mod, attr, None) is orig:
                setattr(mod, attr, wrapper)
                patched.append((mod, attr))
    try:
        yield log
    finally:
        for mod, attr in patched:
            setattr(mod, attr, orig)


def posterior(model, marginal, shapes, values, seed=0):
    """idata with 2 chains of 3 draws of every free variable that is not marginalized, off-centre values"""
    rng = np.random.default_rng(seed)
    post = {}
    for rv in model.free_RVs:
        if rv.name in marginal:
            continue
        shp = shapes[rv.name]
        lo, hi = values.get(rv.name, (-1.5, 1.5))
        post[rv.name] = rng.uniform(lo, hi, size=(2, 3, *shp))
    return az.from_dict(posterior=post)


def run_recover(S, build, domains, recover=None, ranges=None, supported=True, chains=True):
    from pymc_extras.model.marginal.marginal_model import marginalize

    I = Inputs()
    recover = recover or list(domains)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = build()
        shapes = {rv.name: rv_shape(rv, I) for rv in model.basic_RVs}
        idata = posterior(model, domains, shapes, ranges or {})
        try:
            with S.encoding(), recorded() as log:
                mm = marginalize(model, list(domains))
                ds = mm.recover_marginals(idata, var_names=recover, extend_inferencedata=False, random_seed=3)
        except NotImplementedError as e:
            (S.concrete if not supported else S.violation)("refused", *((True, str(e)) if not supported else (f"refuses a supported model: {e}",)))
            return
        lp = model.logp()
        vg = value_givens(model, I, skip=set(domains))
        by_name = {vv.name: a for vv, a in vg.items()}
        asgs = assignments(model, domains, I)
    weights = []
    for a in asgs:
        g = {**vg, **{model.rvs_to_values[model[n]]: v for n, v in a.items()}}
        [r] = ptsym.evaluate([lp], inputs_of([lp], g))
        weights.append(alg.exp(T(np.asarray(r, dtype=object)[()])))
    total = T(0)
    for w in weights:
        total = total + w

    def oracle(name):
        out = np.empty((*shapes[name], len(domains[name])), dtype=object)
        for idx in np.ndindex(*shapes[name]):
            for k, v in enumerate(domains[name]):
                s = T(0)
                for a, w in zip(asgs, weights):
                    if a[name][idx] == v:
                        s = s + w
                out[idx + (k,)] = s / total
        return out

    transform = {rv.name: vv.name for rv, vv in model.rvs_to_values.items()}
    for name in recover:
        key = f"lp_{name}"
        if key not in ds:
            S.violation(f"{name}/lp", f"recover_marginals returned no {key}")
            continue
        got0 = ds[key].values
        want = oracle(name)
        if got0.shape != (2, 3, *want.shape):
            S.violation(f"{name}/shape", f"{key} has shape {got0.shape}, required {(2, 3, *want.shape)}")
            continue
        # which compiled function produced it?
        rec = out_k = None
        for r in log:
            if not r["calls"]:
                continue
            outs = r["calls"][0][2]
            outs = outs if isinstance(outs, list | tuple) else [outs]
            gs = r["outputs"] if isinstance(r["outputs"], list | tuple) else [r["outputs"]]
            for k, (o, gvar) in enumerate(zip(outs, gs)):
                if np.shape(o) == got0.shape[2:] and np.allclose(o, got0[0, 0], rtol=1e-12):
                    rec, out_k, graphs = r, k, gs
        if rec is None:
            S.unknown(f"{name}/graph", "no compiled function yields the reported log probabilities")
            continue
        givens = {v: by_name[v.name] for v in rec["inputs"] if v.name in by_name}
        lpg = graphs[out_k]
        S.graph(f"{name}", [lpg], inputs_of([lpg], givens), lambda want=want: [np.vectorize(alg.log, otypes=[object])(want)],
                ranges=I.ranges, labels=["lp"], timeout_ms=30000, validate=1)
        # samples: their probabilities and the mapping of categories to values of the domain
        draws = [g for k, g in enumerate(graphs) if k != out_k]
        if draws:
            nodes = [v.owner for v in ancestors(draws) if v.owner and isinstance(v.owner.op, RandomVariable)]
            if len({id(n) for n in nodes}) == 1:
                node = nodes[0]
                p = node.op.dist_params(node)[0]
                S.graph(f"{name}", [p], inputs_of([p], givens), lambda want=want: [want], labels=["p"], timeout_ms=30000, validate=1)
                rv = node.default_output()
                for k, v in enumerate(domains[name]):
                    [x] = ptsym.evaluate([draws[0]], {rv: np.full(want.shape[:-1], k, dtype="int64")})
                    x = np.asarray(x, dtype=object)
                    okv = all(float(e) == v for e in x.flat)
                    S.concrete(f"{name}/category-{k}", okv, f"category {k} is returned as {x.tolist()}, required {v}")
            else:
                S.unknown(f"{name}/samples", "samples are not drawn from one categorical variable")
        # chains and draws in the right place: the oracle at every draw of the input
        if chains:
            for c, d in itertools.product(range(2), range(3)):
                point = {}
                for rv in model.free_RVs:
                    if rv.name in domains:
                        continue
                    val = idata.posterior[rv.name].values[c, d]
                    tr = model.rvs_to_transforms[rv]
                    if tr is not None:
                        val = tr.forward(pt.as_tensor(val), *rv.owner.inputs).eval() if type(tr).__name__ != "Interval" else None
                    if val is None:
                        break
                    a = by_name[transform[rv.name]]
                    for i in np.ndindex(*a.shape):
                        nm = alg.CTX.atoms[next(iter(alg.t_atoms(T(a[i]))))].name
                        point[nm] = float(val[i])
                else:
                    ev = alg.NumEval(point)
                    for i in np.ndindex(*want.shape):
                        w, g = np.log(ev(T(want[i]))), float(got0[(c, d) + i])
                        if not close(g, w, 1e-5):
                            S.violation(f"{name}/draw[{c},{d}]", f"{key}[chain {c}, draw {d}]{list(i)} = {g!r}, required {w!r}")
                            return
            S.ok(f"{name}/draws", "every chain and draw carries its own conditional log probability")
        if name in ds:
            vals = ds[name].values
            S.concrete(f"{name}/sample-values", vals.shape == got0.shape[:-1] and set(np.unique(vals)) <= set(domains[name]),
                       f"samples of {name}: shape {vals.shape}, values {sorted(set(np.unique(vals)))}")


def programs(tier):
    out = []

    def prog(name, bound, domains, **kw):
        def deco(f):
            def build():
                with pm.Model(coords={"g": ["u", "v"]}) as m:
                    f()
                return m
            out.append((name, bound, domains, build, kw))
            return f
        return deco

    B = {"x": (0, 1)}
    pr = {"p": (0.2, 0.8), "q": (0.2, 0.8)}

    @prog("bernoulli", "scalar Bernoulli, Normal dependent", B, ranges=pr)
    def _():
        p = pm.Beta("p", 2, 3)
        x = pm.Bernoulli("x", p=p)
        pm.Normal("y", mu=pm.math.switch(x, 1.0, pm.Normal("a", 0, 1)), sigma=1.0, observed=0.75)

    @prog("bernoulli-batch", "batch of 2 with dims", B, ranges=pr)
    def _():
        p = pm.Beta("p", 2, 3)
        x = pm.Bernoulli("x", p=p, dims="g")
        pm.Normal("y", mu=x * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.75, -1.0], dims="g")

    @prog("categorical-batch", "3 categories, batch of 2, indexing", {"x": (0, 1, 2)})
    def _():
        x = pm.Categorical("x", p=[0.25, 0.25, 0.5], shape=(2,))
        pm.Normal("y", mu=pm.Normal("a", 0, 1, shape=(3,))[x], sigma=1.0, observed=[0.75, -1.0])

    @prog("discrete-uniform", "DiscreteUniform on 2..4", {"x": (2, 3, 4)})
    def _():
        x = pm.DiscreteUniform("x", 2, 4)
        pm.Normal("y", mu=x * pm.Normal("a", 0, 1), sigma=1.0, observed=0.5)

    @prog("discrete-uniform-batch", "DiscreteUniform on -1..1, batch of 2", {"x": (-1, 0, 1)})
    def _():
        x = pm.DiscreteUniform("x", -1, 1, shape=(2,))
        pm.Normal("y", mu=x * pm.Normal("a", 0, 1), sigma=1.0, shape=(2,))

    @prog("transposed", "2x2 batch used transposed", B)
    def _():
        x = pm.Bernoulli("x", p=0.25, shape=(2, 2))
        pm.Normal("y", mu=x.T * pm.Normal("a", 0, 1, shape=(2, 2)), sigma=1.0, observed=np.array([[0.5, 1.0], [-1.0, 2.0]]))

    @prog("cycle", "1x2x2 batch used with axes permuted cyclically", B)
    def _():
        x = pm.Bernoulli("x", p=0.25, shape=(1, 2, 2))
        pm.Normal("y", mu=x.transpose(1, 2, 0) * pm.Normal("a", 0, 1), sigma=1.0, observed=np.array([[0.5, 1.0], [-1.0, 2.0]])[..., None])

    @prog("extra-dims", "dependent with a further batch dimension on each side", B)
    def _():
        x = pm.Bernoulli("x", p=0.25, shape=(2,))
        pm.Normal("y", mu=x[:, None] * pm.Normal("a", 0, 1), sigma=1.0, observed=np.array([[[0.5, 1.0], [-1.0, 2.0]]]))

    @prog("two-dependents", "two dependents of a batch of 2", B)
    def _():
        x = pm.Bernoulli("x", p=0.25, shape=(2,))
        a = pm.Normal("a", 0, 1)
        pm.Normal("y1", mu=x * a, sigma=1.0, shape=(2,))
        pm.Normal("y2", mu=x[:, None] * 2.0, sigma=1.0, observed=np.array([[0.5, 1.0], [-1.0, 2.0]]))

    @prog("multivariate", "multivariate dependent of a batch of 2", B)
    def _():
        x = pm.Bernoulli("x", p=0.25, shape=(2,))
        pm.MvNormal("y", mu=x[:, None] * pm.Normal("a", 0, 1, shape=(2,)), cov=np.eye(2), observed=np.array([[0.5, 1.0], [-1.0, 2.0]]))

    @prog("positive-dependent", "free dependent with a log transform", B, ranges=pr | {"s": (0.3, 2.0)})
    def _():
        x = pm.Bernoulli("x", p=pm.Beta("p", 1, 1))
        s = pm.Exponential("s", lam=pm.math.switch(x, 1.0, 3.0))
        pm.Normal("y", mu=0, sigma=s, observed=0.5)

    two = {"x": (0, 1), "z": (0, 1)}

    @prog("chain", "x -> z -> y", two, ranges=pr)
    def _():
        x = pm.Bernoulli("x", p=pm.Beta("p", 1, 1))
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75))
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1), sigma=1.0, observed=0.5)

    @prog("chain-with-both", "x -> z -> y and x -> y", two)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75))
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1) + x, sigma=1.0, observed=0.5)

    @prog("common-child", "two independent causes of one dependent", two)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=0.6)
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1) + x, sigma=1.0, observed=0.5)

    @prog("shared-other-child", "the other marginalized variable has a further dependent of its own", two)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=0.6)
        pm.Normal("w", mu=z * 2.0, sigma=1.0, observed=1.5)
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1) + x, sigma=1.0, observed=0.5)

    @prog("shared-other-child-first", "as before, the dependents declared in the opposite order", two)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=0.6)
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1) + x, sigma=1.0, observed=0.5)
        pm.Normal("w", mu=z * 2.0, sigma=1.0, observed=1.5)

    @prog("parent-of-other", "x selects the distribution of z, z has two dependents", two)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75))
        pm.Normal("w", mu=z * 2.0, sigma=1.0, observed=1.5)
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1), sigma=1.0, observed=0.5)

    @prog("second-of-group", "recovered variable shares its marginalized parent with an earlier variable", two)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        pm.Normal("w", mu=x * 2.0, sigma=1.0, observed=1.5)
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75))
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1), sigma=1.0, observed=0.5)

    @prog("batch-given-scalar", "a batch whose elements are correlated through a marginalized scalar", two, supported=False)
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75), shape=(2,))
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.5, 1.0])

    @prog("batch-given-batch", "batches linked element by element", two)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2,))
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75), shape=(2,))
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.5, 1.0])

    @prog("batch-given-batch-transposed", "dependents of the inner batch observed transposed", two, supported=False)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2, 1))
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75), shape=(2, 2))
        pm.Normal("y", mu=z.T * pm.Normal("a", 0, 1), sigma=1.0, observed=np.array([[0.5, 1.0], [-1.0, 2.0]]))

    @prog("outer-axes", "a batch on the rows and a batch on the columns of one dependent", two, supported=False)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2,))
        z = pm.Bernoulli("z", p=0.6)
        pm.Normal("y", mu=x[:, None] + z * pm.Normal("a", 0, 1), sigma=1.0, observed=np.array([[0.5, 1.0], [-1.0, 2.0]]))

    @prog("common-child-batch", "two batches acting on one dependent element by element", two)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2,))
        z = pm.Bernoulli("z", p=0.6, shape=(2,))
        pm.Normal("y", mu=x + z * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.5, 1.0])

    @prog("shared-batch-other-child-first", "batches; the other marginalized one has a further dependent declared later", two, supported=False)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2,))
        z = pm.Bernoulli("z", p=0.6, shape=(2,))
        pm.Normal("y", mu=x + z * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.5, 1.0])
        pm.Normal("w", mu=z * 2.0, sigma=1.0, observed=[1.5, 0.0])

    @prog("shared-batch-other-child", "batches; the other marginalized one has a further dependent declared earlier", two, supported=False)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2,))
        z = pm.Bernoulli("z", p=0.6, shape=(2,))
        pm.Normal("w", mu=z * 2.0, sigma=1.0, observed=[1.5, 0.0])
        pm.Normal("y", mu=x + z * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.5, 1.0])

    @prog("only-one", "two marginalized variables, one recovered", two, recover=["z"])
    def _():
        x = pm.Bernoulli("x", p=0.3)
        z = pm.Bernoulli("z", p=pm.math.switch(x, 0.25, 0.75))
        pm.Normal("y", mu=z * pm.Normal("a", 0, 1) + x, sigma=1.0, observed=0.5)

    @prog("independent-pair", "two unrelated marginalized variables", two)
    def _():
        x = pm.Bernoulli("x", p=0.3, shape=(2,))
        z = pm.Bernoulli("z", p=0.6)
        pm.Normal("y1", mu=x * pm.Normal("a", 0, 1), sigma=1.0, observed=[0.5, 1.0])
        pm.Normal("y2", mu=z * 2.0, sigma=1.0, observed=0.25)
    return out


def cases(tier):
    out = []
    for name, bound, domains, build, kw in programs(tier):
        def run(S, bound=bound, build=build, domains=domains, kw=kw):
            S.bound(bound + "; all remaining values symbolic; 2 chains x 3 draws replayed")
            run_recover(S, build, domains, **kw)
        out.append((name, run))
    return out
