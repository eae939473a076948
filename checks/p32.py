TITLE = "A function decorated with as_model builds the model written in a context"
ASSUMPTIONS = ["real arithmetic; the oracle is PyMC's own model of the same statements"]
import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks.core import quiet
from vlib import alg, ptsym
from vlib.alg import T

D = np.float64


def plain(loc, scale=None):
    pm.Normal("x", loc, D(2.0) if scale is None else scale, dims="obs")


def nested(loc, scale=None):
    s = pm.HalfNormal("s", D(2.0), dims="group")
    m = pm.Normal("m", loc, D(1.0))
    pm.Deterministic("d", m * s, dims="group")
    x = pm.Normal("x", m, s, dims="group")
    pm.Potential("p", -(x**2).sum())
    pm.Normal("y", x.sum(), D(1.0) if scale is None else scale, observed=np.array([0.5, -1.0, 2.0]), dims="obs")


def data(loc, scale=None):
    t = pm.Data("t", np.array([0.5, -1.0, 2.0]), dims="obs")
    pm.Normal("x", loc * t, D(1.5) if scale is None else scale, dims="obs")


def free(loc, scale=None):
    pm.Exponential("x", pt.exp(loc))
    pm.Normal("z", loc, D(1.0) if scale is None else scale, shape=(2,))


OBS = {"obs": ["a", "b", "c"]}
GROUP = {"group": [3, 5]}
TWO = {"obs": ["u", "v", "w"], "group": ["p", "q", "r"]}
PROGS = {
    # name: (function, decorator's arguments, calls: (keyword arguments, coords))
    "decorator": (plain, dict(coords=OBS), [({}, None), ({}, None), ({}, None)]),
    "call": (plain, {}, [({}, OBS), ({}, {"obs": [1, 2]}), ({}, OBS)]),
    "override": (plain, dict(coords=OBS), [({}, {"obs": [1, 2]}), ({}, None), ({}, {"obs": [7]}), ({}, None)]),
    "extend": (nested, dict(coords=OBS), [({}, GROUP), ({}, {"group": [1]}), ({}, TWO), ({}, GROUP)]),
    "both": (nested, dict(coords=OBS | GROUP), [({}, None), ({}, {"group": ["z"]}), ({}, None)]),
    "scale": (nested, dict(coords=TWO), [({"scale": D(3.0)}, None), ({}, GROUP), ({"scale": D(0.5)}, None)]),
    "data": (data, {}, [({}, OBS), ({}, {"obs": [4, 5, 6]}), ({}, OBS | GROUP)]),
    "no-coords": (free, {}, [({}, None), ({}, GROUP), ({"scale": D(2.0)}, None)]),
    "named": (nested, dict(coords=OBS | GROUP, name="outer"), [({}, None), ({}, {"group": [9]}), ({}, None)]),
    "positional": (plain, dict(coords=OBS, check_bounds=False), [({}, None), ({}, {"obs": [2]}), ({}, None)]),
}


def labels(m):
    return {k: None if v is None else tuple(v) for k, v in m.coords.items()}


def run(S, name):
    from pymc_extras import as_model

    f, deco, calls = PROGS[name]
    S.bound(f"{len(calls)} calls; arbitrary argument and values of the variables")
    given = {k: (dict(v) if isinstance(v, dict) else v) for k, v in deco.items()}
    with S.encoding():
        g = as_model(**given)(f)
    S.concrete("name", g.__name__ == f.__name__, f"the decorated function is called {g.__name__}")
    seen = []
    for j, (kw, coords) in enumerate(calls):
        loc = pt.scalar("loc")
        extra = {} if coords is None else {"coords": dict(coords)}
        with quiet(), S.encoding():
            m = g(loc, **kw, **extra)
        with quiet():
            merged = (deco.get("coords") or {}) | (coords or {})
            with pm.Model(**(deco | {"coords": merged})) as ref:
                f(loc, **kw)
        lab = f"{j}"
        S.concrete(f"{lab}/new", isinstance(m, pm.Model) and all(m is not s for s in seen), "does not return a new model")
        seen.append(m)
        S.concrete(f"{lab}/context", pm.Model.get_context(error_if_none=False) is None, "leaves a model context open")
        S.concrete(f"{lab}/coords", labels(m) == labels(ref), f"coords {labels(m)}, required {labels(ref)}")
        S.concrete(f"{lab}/dims", m.named_vars_to_dims == ref.named_vars_to_dims, f"dims {m.named_vars_to_dims}, required {ref.named_vars_to_dims}")
        names = lambda vs: [v.name for v in vs]
        same = all(names(getattr(m, a)) == names(getattr(ref, a)) for a in ("free_RVs", "observed_RVs", "deterministics", "potentials", "data_vars", "value_vars"))
        if not S.concrete(f"{lab}/variables", same, f"variables {sorted(m.named_vars)}, required {sorted(ref.named_vars)}"):
            continue
        S.concrete(f"{lab}/bounds", m.check_bounds == ref.check_bounds, f"check_bounds {m.check_bounds}")
        givens, mirror = {loc: ptsym.arr0(alg.var("loc"))}, {loc: ptsym.arr0(alg.var("loc"))}
        ok = True
        for a, b in zip(m.value_vars, ref.value_vars):
            s, t = shape_of(m, a, loc), shape_of(ref, b, loc)
            ok &= S.concrete(f"{lab}/{a.name}/shape", s == t, f"{a.name} has shape {s}, required {t}")
            givens[a] = mirror[b] = alg.array(a.name, s) if s else ptsym.arr0(alg.var(a.name))
        if not ok:
            continue
        S.graph(f"{lab}/logp", [m.logp()], givens, lambda: ptsym.evaluate([ref.logp()], mirror), labels=["log density"])


def shape_of(model, value, loc):
    """the shape of a value variable, from the model's own graph"""
    import pytensor

    rv = model.values_to_rvs[value]
    return tuple(int(i) for i in pytensor.function([loc], rv.shape, mode="FAST_COMPILE", on_unused_input="ignore")(0.0))


def cases(tier):
    return [(n, lambda S, n=n: run(S, n)) for n in PROGS]
