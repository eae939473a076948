TITLE = "Automatic reparametrization leaves the model's joint density unchanged"
ASSUMPTIONS = ["real arithmetic; parametrization weights strictly between 0 and 1 in the symbolic cases, the end points concretely",
               "the oracle is PyMC's own joint log density of the model as it was written"]
import warnings

import numpy as np
import pymc as pm
import pytensor
from pytensor.graph.replace import graph_replace

from checks.marg import Inputs, inputs_of, rv_shape
from vlib import alg, ptsym
from vlib.alg import T


def models():
    P = {}

    def prog(name, bound, names, **kw):
        def deco(f):
            def build(I):
                with pm.Model(coords={"g": ["a", "b"], "h": [1, 2]}) as m:
                    f(I)
                return m
            P[name] = (bound, names, build, kw)
            return f
        return deco

    @prog("normal", "one Normal", ["b"])
    def _(I):
        b = pm.Normal("b", I.real("m"), I.positive("s"), shape=())
        pm.Normal("y", b * 2, 1.0, observed=0.5)

    @prog("normal-vector", "a vector of Normals with their own locations and scales", ["b"])
    def _(I):
        b = pm.Normal("b", I.real("m", (2,)), np.array([0.5, 2.0]) * I.positive("s"), shape=(2,))
        pm.Normal("y", b, 1.0, observed=np.array([0.5, 1.0]))

    @prog("normal-matrix", "a matrix of Normals with row locations and column scales", ["b"])
    def _(I):
        pm.Normal("b", I.real("m", (2, 1)), np.array([0.5, 2.0]) * I.positive("s"), dims=("g", "h"))

    @prog("normal-no-size", "a vector of Normals without shape", ["b"])
    def _(I):
        pm.Normal("b", I.real("m", (2,)), I.positive("s"))

    @prog("normal-tau", "Normal given by its precision", ["b"])
    def _(I):
        pm.Normal("b", I.real("m"), tau=I.positive("t"), shape=(2,))

    @prog("exponential", "one Exponential with its log transform", ["e"])
    def _(I):
        e = pm.Exponential("e", scale=I.positive("s"), shape=())
        pm.Normal("y", e, 1.0, observed=0.5)

    @prog("exponential-vector", "Exponentials given by rates, with dims", ["e"])
    def _(I):
        pm.Exponential("e", lam=I.positive("l") * np.array([1.0, 2.0]), dims="g")

    @prog("exponential-raw", "Exponential without a transform", ["e"])
    def _(I):
        pm.Exponential("e", scale=I.positive("s"), shape=(2,), transform=None)

    @prog("eight-schools", "the class documentation's example with 2 schools", ["theta"])
    def _(I):
        mu = pm.Normal("mu", mu=0, sigma=5)
        tau = pm.HalfCauchy("tau", beta=5)
        theta = pm.Normal("theta", mu=mu, sigma=tau, shape=2)
        pm.Normal("obs", mu=theta, sigma=np.array([15.0, 10.0]), observed=np.array([28.0, 8.0]))

    def nested(I):
        a = pm.Normal("a", 0.5, 2.0)
        s = pm.Exponential("s", scale=0.5)
        ag = pm.Normal("ag", a, s, dims="g")
        ai = pm.Normal("ai", ag[:, None], s * 2, dims=("g", "h"))
        pm.Deterministic("d", ai.sum(axis=0) * a)
        pm.Normal("y", ai[:, 0], I.positive("t"), observed=np.array([0.5, -0.5]))

    prog("nested", "two levels, both reparametrized", ["ag", "ai"])(nested)
    prog("nested-order", "two levels, named in the opposite order", ["ai", "ag"])(nested)
    prog("nested-inner", "two levels, only the lower one", ["ai"])(nested)
    prog("nested-outer", "two levels, only the upper one", ["ag"])(nested)
    prog("nested-all", "every level including a transformed scale", ["ai", "s", "a", "ag"])(nested)
    prog("nested-three", "three levels of locations", ["ai", "ag", "a"])(nested)

    @prog("scale-is-vip", "the scale of a Normal is itself reparametrized", ["e", "b"])
    def _(I):
        e = pm.Exponential("e", scale=I.positive("s"), shape=(2,))
        pm.Normal("b", 0.5, e, shape=(2,))

    @prog("rest-of-model", "potentials, data, discrete and transformed variables beside it", ["b"])
    def _(I):
        d = pm.Data("d", np.array([0.5, -1.0]))
        p = pm.Beta("p", 2, 3)
        k = pm.Bernoulli("k", p, observed=np.array([1, 0, 1]))  # noqa: F841
        b = pm.Normal("b", d, I.positive("s"), dims="g")
        pm.Potential("pot", -(b**2).sum() * p)
        pm.Normal("y", b * d, 1.0, observed=np.array([0.25, 1.5]), dims="g")

    @prog("reused", "a reparametrized variable used in several places", ["b"])
    def _(I):
        b = pm.Normal("b", I.real("m"), I.positive("s"))
        c = pm.Normal("c", b, pm.math.exp(b))
        pm.Normal("y", b * c, 1.0, observed=1.5)
    return P


def by_name(graphs, I):
    """the symbolic parameters among the inputs of graphs of a copied model"""
    from pytensor.graph.basic import explicit_graph_inputs

    names = {v.name: a for v, a in I.givens.items()}
    return {v: names[v.name] for v in explicit_graph_inputs(graphs) if v.name in names}


def run(S, name):
    from pymc_extras.model.transforms.autoreparam import vip_reparametrize

    bound, names, build, kw = models()[name]
    S.bound(bound + "; values, weights and named parameters symbolic")
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = build(I)
        before = describe(model)
        with S.encoding():
            new, vip = vip_reparametrize(model, names)
            lp = new.logp()
    S.concrete("original", describe(model) == before, f"the original model is now {describe(model)}, was {before}")
    S.concrete("free", sorted(v.name for v in new.free_RVs) == sorted(f"{v.name}::tau_" if v.name in names else v.name for v in model.free_RVs), f"free variables {new.free_RVs}")
    S.concrete("named", all(n in new.named_vars and (n in [d.name for d in new.deterministics]) for n in names), f"deterministics {new.deterministics}")
    S.concrete("rest", sorted(v.name for v in new.observed_RVs) == sorted(v.name for v in model.observed_RVs) and len(new.potentials) == len(model.potentials)
               and {d.name for d in model.deterministics} <= {d.name for d in new.deterministics}, f"observed {new.observed_RVs}, potentials {new.potentials}")
    S.concrete("dims", all(tuple(new.named_vars_to_dims.get(n, ())) == tuple(d) for n, d in model.named_vars_to_dims.items()), f"dims {new.named_vars_to_dims}, were {model.named_vars_to_dims}")
    S.concrete("coords", {k: tuple(v) for k, v in new.coords.items()} == {k: tuple(v) for k, v in model.coords.items()}, f"coords {new.coords}")

    # weights: symbolic values of the shared variables; values of the new free variables
    givens, lams, weights = {}, {}, {}
    for n in names:
        sh = vip._logit_lambda[n]
        shape = sh.get_value().shape
        lam, logit = np.empty(shape, dtype=object), np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            nm = f"w_{n}" + "".join(f"_{j}" for j in i)
            lam[i] = alg.positive_var(nm)
            I.assume.append(alg.lt(lam[i], T(1)))
            I.ranges[nm] = (0.05, 0.95)
            logit[i] = alg.log(lam[i]) - alg.log(1 - lam[i])
        weights[sh] = sh.type(name=f"logit_{n}")
        givens[weights[sh]] = logit
        lams[n] = np.broadcast_to(lam, rv_shape(model[n], I))
    values = {}
    for rv in new.free_RVs:
        vv = new.rvs_to_values[rv]
        shape = rv_shape(model[rv.name.removesuffix("::tau_")], I)
        values[rv.name] = alg.array(f"x_{vv.name}", shape) if shape else ptsym.arr0(alg.var(f"x_{vv.name}"))
        givens[vv] = values[rv.name]
    order = [v.name for v in model.free_RVs]  # parents come first
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        olp = model.logp()
        params = {}
        for n in names:
            node = model[n].owner
            params[n] = model.replace_rvs_by_values(list(node.op.dist_params(node)))
    every = {**I.givens}

    def original():
        """values of the original model's value variables, the reparametrized quantities and the log Jacobian"""
        vals, jac, theta = {}, T(0), {}
        for n in order:
            rv = model[n]
            shape = rv_shape(rv, I)
            if n not in names:
                vals[model.rvs_to_values[rv]] = values[n]
                continue
            x, lam = values[f"{n}::tau_"], lams[n]
            ps = [np.broadcast_to(np.asarray(p, dtype=object), shape) for p in ptsym.evaluate(params[n], inputs_of(params[n], {**every, **vals}))]
            out, val = np.empty(shape, dtype=object), np.empty(shape, dtype=object)
            logged = model.rvs_to_transforms.get(rv) is not None
            for i in np.ndindex(*shape):
                scale = T(ps[-1][i])
                step = (T(1) - lam[i]) * alg.log(scale)
                if len(ps) == 2:
                    out[i] = val[i] = T(ps[0][i]) + alg.exp(step) * (T(x[i]) - lam[i] * T(ps[0][i]))
                    jac = jac + step
                elif logged:
                    val[i] = T(x[i]) + step
                    out[i] = alg.exp(val[i])
                else:
                    out[i] = val[i] = alg.exp(step) * T(x[i])
                    jac = jac + step
            vals[model.rvs_to_values[rv]], theta[n] = val, out
        return vals, theta, jac

    def density():
        vals, _, jac = original()
        [r] = ptsym.evaluate([olp], inputs_of([olp], {**every, **vals}))
        return [ptsym.arr0(T(np.asarray(r, dtype=object)[()]) + jac)]

    def quantities():
        _, theta, _ = original()
        return [theta[n] for n in names]

    dets = new.replace_rvs_by_values([new[n] for n in names])
    lp, *dets = graph_replace([lp, *dets], weights)
    everything = {**by_name([lp, *dets], I), **givens}
    S.graph("logp", [lp], inputs_of([lp], everything), density, assumptions=I.assume, ranges=I.ranges)
    S.graph("theta", dets, inputs_of(dets, everything), quantities, assumptions=I.assume, ranges=I.ranges)


def describe(m):
    return ([v.name for v in m.free_RVs], [v.name for v in m.observed_RVs], [v.name for v in m.deterministics], [v.name for v in m.potentials], sorted(m.named_vars))


def weights(S):
    """set, get and truncate"""
    from pymc_extras.model.transforms.autoreparam import vip_reparametrize

    S.bound("two variables, scalar and vector weights, seven values, thresholds 0.1, 0.25, 0.5 (concrete)")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with pm.Model() as m:
            pm.Normal("a", 0, 1, shape=(3,))
            pm.Exponential("b", 1, shape=())
        _, vip = vip_reparametrize(m, ["a", "b"])
    for x in (0.0, 0.05, 0.25, 0.5, 0.75, 0.96875, 1.0):
        vip.set_all_lambda(x)
        S.concrete(f"all-{x}", np.allclose(vip.get_lambda()["a"], [x] * 3) and np.allclose(vip.get_lambda()["b"], x), f"weights {vip.get_lambda()}")
        vip.set_all_lambda(0.5)
        vip.set_lambda(a=np.array([x, 0.5, 0.125]))
        S.concrete(f"one-{x}", np.allclose(vip.get_lambda()["a"], [x, 0.5, 0.125]) and np.allclose(vip.get_lambda()["b"], 0.5), f"weights {vip.get_lambda()}")
        for eps in (0.1, 0.25, 0.5):
            for label, cut in (("", lambda: vip.truncate_lambda(a=eps)), ("-all", lambda: vip.truncate_all_lambda(eps))):
                vip.set_lambda(a=np.array([x, 0.3, 0.7]), b=0.375)
                had = vip.get_lambda()
                cut()
                got = vip.get_lambda()
                if x in (eps, 1 - eps) and x != 0.5:
                    continue  # rounding through the logit may move the weight over the threshold
                same = lambda g, v: g in (0, 1) if eps == v == 0.5 else np.isclose(g, 0.0 if v <= eps else 1.0 if v >= 1 - eps else v)
                ok = all(map(same, got["a"], had["a"])) and (same(got["b"], had["b"]) if label else np.isclose(got["b"], had["b"]))
                S.concrete(f"truncate{label}-{x}-{eps}", ok, f"weights {got} from {had} at threshold {eps}")


def endpoints(S, name):
    """at weights 0 and 1 the variable is the fully non-centred and the centred one: concrete, infinite logits"""
    from pymc_extras.model.transforms.autoreparam import vip_reparametrize

    bound, names, build, kw = models()[name]
    S.bound(bound + "; weights 0 and 1, concrete values")
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = build(I)
        new, vip = vip_reparametrize(model, names)
        lp = new.logp()
        ins = list(by_name([lp], I))
        f = pytensor.function([*new.value_vars, *ins], lp, mode="FAST_COMPILE", on_unused_input="ignore")
        g = pytensor.function([*model.value_vars, *I.givens], model.logp(), mode="FAST_COMPILE", on_unused_input="ignore")
        pars = {n: pytensor.function([*model.value_vars, *list(I.givens)], model.replace_rvs_by_values(list(model[n].owner.op.dist_params(model[n].owner))), mode="FAST_COMPILE", on_unused_input="ignore") for n in names}
    rng = np.random.default_rng(3)
    gin = {v: rng.uniform(0.5, 1.5, a.shape) for v, a in I.givens.items()}
    named = {v.name: x for v, x in gin.items()}
    for lam in (0.0, 1.0):
        vip.set_all_lambda(lam)
        new_vals, old, jac = {}, {}, 0.0
        for rv in model.free_RVs:
            n = rv.name
            x = rng.normal(size=rv_shape(rv, I)) * 0.5
            if n not in names:
                new_vals[n], old[n] = x, x
                continue
            new_vals[f"{n}::tau_"] = x
            cur = [old.get(v.name, np.zeros(rv_shape(v, I))) for v in model.free_RVs]
            ps = pars[n](*cur, *[gin[v] for v in I.givens])
            scale = np.broadcast_to(ps[-1], x.shape)
            step = (1 - lam) * np.log(scale)
            if len(ps) == 2:
                old[n] = ps[0] + np.exp(step) * (x - lam * ps[0])
                jac += step.sum()
            elif model.rvs_to_transforms.get(rv) is not None:
                old[n] = x + step
            else:
                new_vals[f"{n}::tau_"] = x = np.abs(x) + 0.1
                old[n] = np.exp(step) * x
                jac += step.sum()
        got = f(*[new_vals[v.name] for v in new.free_RVs], *[named[v.name] for v in ins])
        want = g(*[old[v.name] for v in model.free_RVs], *gin.values()) + jac
        S.concrete(f"weight-{lam}", np.isclose(got, want), f"log density {got}, required {want}")


def refuses(S):
    from pymc_extras.model.transforms.autoreparam import vip_reparametrize

    S.bound("distributions and transforms without a rule, unknown names (finite structure)")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with pm.Model() as m:
            pm.Normal("t", 0, 1, transform=pm.distributions.transforms.LogTransform())
            pm.Gamma("gamma", 1, 1)
            pm.Normal("y", 0, 1, observed=1.0)
    for n, errs in (("t", (NotImplementedError,)), ("gamma", (NotImplementedError,)), ("absent", (KeyError,))):
        try:
            vip_reparametrize(m, [n])
        except errs:
            S.concrete(n, True, "")
        except Exception as e:
            S.concrete(n, False, f"raises {type(e).__name__}: {e}")
        else:
            S.concrete(n, False, "is accepted")


def cases(tier):
    out = []
    for name in models():
        out.append((name, lambda S, name=name: run(S, name)))
    for name in ("normal-vector", "exponential-vector", "nested-all", "eight-schools"):
        out.append((f"endpoints-{name}", lambda S, name=name: endpoints(S, name)))
    out.append(("weights", weights))
    out.append(("refuses", refuses))
    return out
