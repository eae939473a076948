TITLE = "Marginalizing leaves the original model intact and can be undone"
ASSUMPTIONS = ["real arithmetic", "dimension names, coordinates and variable lists are compared as they are (finite structure, no free values)"]
import itertools
import warnings

import numpy as np
import pymc as pm

from checks.marg import Inputs, assignments, inputs_of, value_givens
from checks.p15 import programs
from vlib import alg, ptsym


def snapshot(m):
    return {
        "named_vars": list(m.named_vars), "free_RVs": [v.name for v in m.free_RVs], "observed_RVs": [v.name for v in m.observed_RVs],
        "dims": {k: tuple(v) for k, v in m.named_vars_to_dims.items()}, "coords": {k: tuple(v) if v is not None else None for k, v in m.coords.items()},
        "potentials": [v.name for v in m.potentials], "deterministics": [v.name for v in m.deterministics],
        "values": {rv.name: vv.name for rv, vv in m.rvs_to_values.items()},
        "transforms": {rv.name: type(t).__name__ for rv, t in m.rvs_to_transforms.items()},
    }


def elementwise(model):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return model.logp()


def run(S, build, domains, how):
    from pymc_extras.model.marginal.marginal_model import MarginalModel, marginalize

    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = build(I)
        before, lp0 = snapshot(model), elementwise(model)
        try:
            with S.encoding():
                mm = marginalize(model, [model[n] if how == "variables" else n for n in domains])
                mm.logp()
        except NotImplementedError as e:
            S.concrete("original-after-refusal", snapshot(model) == before, f"original model changed although marginalization was refused: {diff(before, snapshot(model))}")
            return
        after = snapshot(model)
        S.concrete("original-structure", after == before, f"marginalize changed the original model: {diff(before, after)}")
        ms = snapshot(mm)
        want = {
            "named_vars": [n for n in before["named_vars"] if n not in domains],
            "free_RVs": [n for n in before["free_RVs"] if n not in domains],
            "observed_RVs": before["observed_RVs"], "coords": before["coords"],
            "dims": {k: v for k, v in before["dims"].items() if k not in domains},
        }
        for k, w in want.items():
            S.concrete(f"marginal-{k}", sorted(ms[k]) == sorted(w) if k == "named_vars" else ms[k] == w, f"{k} of the marginal model: {ms[k]}, required {w}")
        S.concrete("marginalized_rvs", sorted(v.name for v in mm.marginalized_rvs) == sorted(domains), f"marginalized_rvs = {[v.name for v in mm.marginalized_rvs]}")
        with S.encoding():
            c = mm.clone()
        S.concrete("clone", snapshot(c) == ms and sorted(v.name for v in c.marginalized_rvs) == sorted(domains), f"clone of the marginal model differs: {diff(ms, snapshot(c))}")
        try:
            with S.encoding():
                c.unmarginalize(list(domains) if how == "names" else list(c.marginalized_rvs))
        except Exception as e:
            S.violation("unmarginalize", f"unmarginalize raises {e}")
            return
        cs = snapshot(c)
        for k in ("dims", "coords", "observed_RVs", "potentials", "deterministics", "transforms"):
            S.concrete(f"unmarginalized-{k}", cs[k] == before[k], f"{k} after unmarginalize: {cs[k]}, required {before[k]}")
        S.concrete("unmarginalized-named_vars", sorted(cs["named_vars"]) == sorted(before["named_vars"]) and sorted(cs["free_RVs"]) == sorted(before["free_RVs"]),
                   f"variables after unmarginalize: {cs['named_vars']}, required {before['named_vars']}")
        ms2 = snapshot(mm)
        S.concrete("clone-independent", ms2 == ms and sorted(v.name for v in mm.marginalized_rvs) == sorted(domains), f"unmarginalizing a clone changed the marginal model: {diff(ms, ms2)}")
        lp1 = elementwise(model)
        lp2 = elementwise(c)
        vg = value_givens(model, I, skip=set(domains))
        by_name = {vv.name: a for vv, a in vg.items()}
    for n, a in enumerate(assignments(model, domains, I)):
        if n >= 4 and n not in (9,):
            break
        g0 = {**I.givens, **vg, **{model.rvs_to_values[model[k]]: v for k, v in a.items()}}
        gc = {**I.givens, **{vv: by_name[vv.name] for vv in c.rvs_to_values.values() if vv.name in by_name}, **{c.rvs_to_values[c[k]]: v for k, v in a.items()}}

        def spec(g0=g0):
            [r] = ptsym.evaluate([lp0], inputs_of([lp0], g0))
            return [r]
        S.graph(f"original-logp@{n}", [lp1], inputs_of([lp1], g0), spec, assumptions=I.assume, ranges=I.ranges, labels=["logp"], validate=n == 0)
        S.graph(f"unmarginalized-logp@{n}", [lp2], inputs_of([lp2], gc), spec, assumptions=I.assume, ranges=I.ranges, labels=["logp"], validate=n == 0)


def diff(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def dims_programs():
    out = []

    def f1(I):
        with pm.Model(coords={"g": ["a", "b"], "h": [1, 2, 3]}) as m:
            x = pm.Bernoulli("x", p=I.prob("p"), dims="g")
            pm.Normal("y", mu=x[:, None] * I.real("a"), sigma=1.0, dims=("g", "h"))
        return m

    def f2(I):
        with pm.Model(coords={"g": ["a", "b"]}) as m:
            x = pm.Bernoulli("x", p=I.prob("p"), dims="g")
            z = pm.Categorical("z", p=[0.25, 0.75], dims="g")
            w = pm.HalfNormal("w", 1.0, dims="g")
            pm.Deterministic("d", w * 2, dims="g")
            pm.Normal("y", mu=x * w + z, sigma=1.0, observed=[0.5, 1.0], dims="g")
            pm.Potential("pot", -w.sum())
        return m

    def f3(I):
        with pm.Model(coords={"g": ["a", "b"]}) as m:
            x = pm.Bernoulli("x", p=I.prob("p"))
            d = pm.Data("data", np.array([1.0, 2.0]), dims="g")
            pm.Normal("y", mu=x * d, sigma=1.0, dims="g")
        return m
    out.append(("dims", "variables with named dimensions", {"x": (0, 1)}, f1))
    out.append(("dims-two", "two marginalized variables with dims, transforms, deterministic and potential", {"x": (0, 1), "z": (0, 1)}, f2))
    out.append(("dims-data", "named data", {"x": (0, 1)}, f3))
    return out


PICK = ("bernoulli-scalar", "categorical-batch", "discrete-uniform", "two-parents", "chain", "transformed-dependent", "other-variables",
        "prior-of-p", "shared-data", "mvnormal", "symbolic-dist", "deterministic", "potential", "sliced")


def cases(tier):
    out = []
    progs = dims_programs() + [(n, b, d, f) for n, b, d, f, _ in programs(tier) if n in PICK or tier == "thorough"]
    for name, bound, domains, build in progs:
        for how in ("names", "variables"):
            def go(S, bound=bound, build=build, domains=domains, how=how):
                S.bound(f"{bound}; given by {how}; all values symbolic, up to five assignments of the discrete values")
                run(S, build, domains, how)
            out.append((f"{name}-{how}", go))
    return out
