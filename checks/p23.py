TITLE = "The R2D2M2CP prior splits the outcome's variance as documented"
ASSUMPTIONS = ["real arithmetic; the inverse error function is uninterpreted (odd, zero at zero)",
               "PyMC's own Normal, Beta and Dirichlet log densities are the reference for the prior of each named quantity"]
import itertools
import warnings

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks.marg import Inputs, inputs_of
from vlib import alg, ptsym
from vlib.alg import T

COORDS = {"one": ["x"], "v": ["a", "b"], "g": [0, 1], "w": ["a", "b", "c"]}
# probability of a positive effect, its standard deviation
PSI = {
    "default": ({}, None),
    "scalar": ({"positive_probs": np.float64(0.75)}, None),
    "array": ({"positive_probs": [0.25, 0.75]}, None),
    "array-std": ({"positive_probs": [0.25, 0.75], "positive_probs_std": [0.125, 0.25]}, "std"),
    "scalar-std": ({"positive_probs": np.float64(0.25), "positive_probs_std": np.float64(0.125)}, "std"),
    "limit-1": ({"positive_probs": [1.0, 0.25]}, None),
    "limit-0": ({"positive_probs": [0.75, 0.0]}, None),
    "limit-1-std": ({"positive_probs": [1.0, 0.25], "positive_probs_std": [0.0, 0.125]}, "std"),
    "limit-0-std": ({"positive_probs": [0.75, 0.0], "positive_probs_std": [0.25, 0.0]}, "std"),
    "limit-all": ({"positive_probs": [1.0, 0.0]}, None),
    "limit-all-std": ({"positive_probs": [0.0, 1.0], "positive_probs_std": np.float64(0.0)}, "std"),
}
PHI = ("none", "importance", "importance-concentration", "explained", "explained-concentration", "concentration")


def setup(psi, phi, dims, centered, r2_std, scalar_r2):
    """the real model, its inputs and the arguments it was given"""
    from pymc_extras.distributions import R2D2M2CP

    I = Inputs()
    n = len(COORDS[dims[-1]])
    lead = tuple(len(COORDS[d]) for d in dims[:-1])

    def positive(name, shape):
        v = pt.tensor(name, shape=shape, dtype="float64")
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            nm = name + "".join(f"_{j}" for j in i)
            a[i] = alg.positive_var(nm)
            I.ranges[nm] = (0.4, 2.0)
        I.givens[v] = a
        return v

    def above_one(name, shape):
        """importances: above one, so that no Dirichlet parameter is exactly one"""
        v = positive(name, shape)
        a = I.givens[v]
        for i in np.ndindex(*shape):
            a[i] = a[i] + 1
        return v

    A = {"out": positive("out", lead), "in": positive("in", lead + (n,)),
         "r2": I.prob("r2", () if scalar_r2 else lead)}
    kw = dict(PSI[psi][0])
    if lead and psi.startswith("limit") and not psi.startswith("limit-all"):
        kw["positive_probs"] = np.array([kw["positive_probs"], [0.5, 0.25]])
        if "positive_probs_std" in kw:
            kw["positive_probs_std"] = np.array([kw["positive_probs_std"], [0.25, 0.125]])
    if r2_std:
        A["r2_std"] = kw["r2_std"] = I.positive("r2_std")
        I.ranges["r2_std"] = (0.02, 0.1)
    if "importance" in phi:
        A["importance"] = kw["variables_importance"] = above_one("importance", (n,))
    if "explained" in phi:
        A["explained"] = kw["variance_explained"] = above_one("explained", lead + (n,))
    if "concentration" in phi:
        A["concentration"] = kw["importance_concentration"] = above_one("concentration", ())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with pm.Model(coords={d: COORDS[d] for d in dims}) as model:
            eps, beta = R2D2M2CP("beta", A["out"], A["in"], dims=dims[0] if len(dims) == 1 else dims, r2=A["r2"], centered=centered, **kw)
    return model, eps, beta, I, A, kw, lead + (n,)


def reference(A, kw, shape, dims, centered):
    """the documented prior, written out element by element"""
    lead = shape[:-1]
    probs = np.broadcast_to(np.asarray(kw.get("positive_probs", 0.5), dtype=float), shape)
    free = (probs != 0) & (probs != 1)
    with pm.Model(coords={d: COORDS[d] for d in dims}) as ref:
        r2 = A["r2"]
        if "r2_std" in kw:
            r2 = pm.Beta("beta::r2", mu=A["r2"], sigma=A["r2_std"], shape=lead)
        r2 = pt.broadcast_to(r2, lead)
        weights = A.get("importance", A.get("explained", pt.ones(shape)))
        if "concentration" in A:
            weights = weights * A["concentration"]
        if "importance" in A or "concentration" in A:
            phi = pm.Dirichlet("beta::phi", pt.broadcast_to(weights, shape))
        else:
            phi = pt.broadcast_to(weights, shape)
        psi = {i: pt.constant(probs[i]) for i in np.ndindex(*shape)}
        if kw.get("positive_probs_std") is not None and free.any():
            std = np.broadcast_to(np.asarray(kw["positive_probs_std"], dtype=float), shape)
            rv = pm.Beta("beta::psi", mu=probs, sigma=std) if free.all() else pm.Beta("beta::psi::masked", mu=probs[free], sigma=std[free])
            psi |= {i: rv[i if free.all() else k] for k, i in enumerate(zip(*np.nonzero(free)))}
        where = list(zip(*np.nonzero(free)))
        mu, sd = {}, {}
        for i in np.ndindex(*shape):
            explained = phi[i] * r2[i[:-1]] * A["out"][i[:-1]] ** 2
            if free[i]:
                z = pt.erfinv(2 * psi[i] - 1)  # P(effect > 0) = psi: mu = sqrt(2) z sd, mu^2 + sd^2 = explained
                sd[i] = pt.sqrt(explained) / pt.sqrt(1 + 2 * z**2) / A["in"][i]
                mu[i] = 2**0.5 * z * sd[i]
            else:
                mu[i], sd[i] = (1 if probs[i] == 1 else -1) * pt.sqrt(explained) / A["in"][i], pt.constant(0.0)
        flat = lambda d: pt.stack([d[i] for i in where]).reshape(shape if free.all() else (len(where),))
        if free.any() and centered:
            raw = pm.Normal("beta" if free.all() else "beta::masked", flat(mu), flat(sd))
        elif free.any():
            raw = pm.Normal("beta::raw" if free.all() else "beta::raw::masked", shape=shape if free.all() else (len(where),))
        else:
            raw = None
        vals = dict(mu)
        for k, i in enumerate(where):
            r = raw[i if free.all() else k]
            vals[i] = r if centered else mu[i] + sd[i] * r
        beta = pt.stack([vals[i] for i in np.ndindex(*shape)]).reshape(shape)
        eps = A["out"] * pt.sqrt(1 - r2)
    return ref, eps, beta


def plain(model):
    from pymc.model.transform.conditioning import remove_value_transforms

    return remove_value_transforms(model) if any(t is not None for t in model.rvs_to_transforms.values()) else model


def one(S, tag, psi, phi, dims, centered, r2_std, scalar_r2):
    if phi not in ("none", "concentration") and len(COORDS[dims[-1]]) < 2:
        return
    with S.encoding():
        model, eps, beta, I, A, kw, shape = setup(psi, phi, dims, centered, r2_std, scalar_r2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref, reps, rbeta = reference(A, kw, shape, dims, centered)
    names = {v.name for v in ref.free_RVs}
    S.concrete(f"{tag}/free", {v.name for v in model.free_RVs} == names and not model.observed_RVs and not model.potentials, f"random variables {model.free_RVs}, required {sorted(names)}")
    if {v.name for v in model.free_RVs} != names:
        return
    dimmed = {v.name: tuple(model.named_vars_to_dims.get(v.name, ())) for v in model.basic_RVs + model.deterministics}
    S.concrete(f"{tag}/dims", dimmed.get("beta") == tuple(dims) and dimmed.get("beta::r2", tuple(dims[:-1])) == tuple(dims[:-1]) and dimmed.get("beta::phi", tuple(dims)) == tuple(dims)
               and dimmed.get("beta::psi", tuple(dims)) == tuple(dims), f"dims {dimmed}")
    # values of the random variables, in their own space
    values = {}
    for rv in ref.free_RVs:
        n = rv.name
        full = tuple(int(s) for s in np.shape(rv.eval({v: np.full(a.shape, 0.5 if v.name != "r2_std" else 0.1) for v, a in inputs_of([rv], I.givens).items()})))
        J = Inputs()
        if n == "beta::phi":
            v = pt.tensor("x_phi", shape=full, dtype="float64")
            J.givens[v] = simplex(full, J.ranges)
        elif n in ("beta::r2", "beta::psi", "beta::psi::masked"):
            v = J.prob("x_" + n, full)
        else:
            v = J.real("x_" + n, full)
        values[n] = J.givens[v]
        I.assume += J.assume
        I.ranges |= J.ranges
    # a Beta with the given mean and deviation exists
    if r2_std:
        a, s = I.givens[A["r2"]], T(I.givens[A["r2_std"]][()])
        I.assume += [alg.gt(a[i] * (1 - a[i]), s * s) for i in np.ndindex(*a.shape)]
    out = {}
    for key, m, e, b in (("got", model, eps, beta), ("want", ref, reps, rbeta)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = plain(m)
            g = p.replace_rvs_by_values([p["beta"] if key == "got" else b])[0] if key == "got" and p is not m else m.replace_rvs_by_values([b])[0]
            out[key] = (p, m, g, e)
    # log densities, without value transforms
    (pg, mg, _, _), (pr, mr, _, _) = out["got"], out["want"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with S.encoding():
            lp = pg.logp()
        rlp = pr.logp()
        gs = with_values(model, [beta, eps], values)
        rs = with_values(ref, [rbeta, reps], values)
    extra = gs[1] | {pg.rvs_to_values[v]: values[v.name] for v in pg.free_RVs}
    rextra = rs[1] | {pr.rvs_to_values[v]: values[v.name] for v in pr.free_RVs}
    everything, reverything = {**by_name([lp, *gs[0]], I), **extra}, {**by_name([rlp, *rs[0]], I), **rextra}
    outputs = [lp, *gs[0]]
    S.graph(tag, outputs, inputs_of(outputs, everything), lambda: ptsym.evaluate([rlp, *rs[0]], inputs_of([rlp, *rs[0]], reverything)),
            assumptions=I.assume, ranges=I.ranges, labels=["logp", "beta", "eps"], validate=1)


def by_name(graphs, I):
    from pytensor.graph.basic import explicit_graph_inputs

    names = {v.name: a for v, a in I.givens.items()}
    return {v: names[v.name] for v in explicit_graph_inputs(graphs) if v.name in names}


def simplex(shape, ranges):
    """rows that sum to one: positive weights over their sum"""
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape[:-1]):
        ws = [T(1)]
        for k in range(1, shape[-1]):
            nm = "x_phi" + "".join(f"_{j}" for j in i + (k,))
            ws.append(alg.positive_var(nm))
            ranges[nm] = (0.3, 3.0)
        for k, w in enumerate(ws):
            a[i + (k,)] = w / sum(ws[1:], ws[0])
    return a


def with_values(model, graphs, values):
    """graphs with the model's random variables replaced by plain inputs"""
    from pytensor.graph.replace import clone_replace

    ins = {rv: pt.tensor("v_" + rv.name, shape=values[rv.name].shape, dtype="float64") for rv in model.free_RVs}
    return clone_replace(graphs, ins, rebuild_strict=False), {ins[rv]: values[rv.name] for rv in model.free_RVs}


def group(S, psi, tier):
    S.bound(f"{PSI[psi][0] or 'default probabilities'}; 1-2 dims of length 1-3, every way of giving the importances, r2 fixed or random")
    n = 0
    for (dims, scalar), phi, centered, r2_std in itertools.product(
        ((("v",), True), (("g", "v"), False), (("g", "v"), True), (("one",), True), (("g", "w"), False)), PHI, (False, True), (False, True)
    ):
        arr = psi not in ("default", "scalar", "scalar-std")
        if arr and dims[-1] != "v":
            continue
        n += 1
        if tier == "quick" and (scalar and len(dims) == 2 and (phi != "importance" or r2_std != centered) or dims == ("g", "w") and (r2_std == centered) and phi != "explained"):
            continue
        one(S, f"{'x'.join(dims)}{'-shared' if scalar and len(dims) == 2 else ''}-{phi}{'-centered' if centered else ''}{'-r2std' if r2_std else ''}", psi, phi, list(dims), centered, r2_std, scalar)


def refuses(S):
    from pymc_extras.distributions import R2D2M2CP

    S.bound("combinations of arguments that have no meaning (finite structure)")
    bad = {
        "importance-and-explained": (("v",), dict(variables_importance=[1.0, 2.0], variance_explained=[0.5, 0.5]), TypeError),
        "importance-of-one": (("one",), dict(variables_importance=[1.0]), TypeError),
        "explained-of-one": (("one",), dict(variance_explained=[1.0]), TypeError),
        "random-probabilities": (("v",), dict(positive_probs=pt.vector("p")), TypeError),
        "random-probabilities-std": (("v",), dict(positive_probs=[0.5, 0.5], positive_probs_std=pt.vector("p")), TypeError),
        "certain-with-std": (("v",), dict(positive_probs=[1.0, 0.5], positive_probs_std=[0.1, 0.1]), ValueError),
        "certain-0-with-std": (("v",), dict(positive_probs=[0.5, 0.0], positive_probs_std=0.1), ValueError),
    }
    for tag, (dims, kw, err) in bad.items():
        try:
            with pm.Model(coords={d: COORDS[d] for d in dims}):
                R2D2M2CP("beta", 1.0, np.ones(len(COORDS[dims[-1]])), dims=dims, r2=0.5, **kw)
        except err:
            S.concrete(tag, True, "")
        except Exception as e:
            S.concrete(tag, False, f"raises {type(e).__name__}: {e}")
        else:
            S.concrete(tag, False, "is accepted")


def cases(tier):
    return [(psi, lambda S, psi=psi: group(S, psi, tier)) for psi in PSI] + [("refuses", refuses)]
