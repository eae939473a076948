TITLE = "Pathfinder maximises the model's log density and reports its variables"
ASSUMPTIONS = ["real arithmetic; BlackJAX's pathfinder is a stand-in that records what it is given and reports arbitrary points, so the quality of the approximation is not claimed",
               "PyMC's translation of a graph to JAX is trusted; the graph it is given is what is encoded",
               "the oracle is the model's own log density of transformed variables (with Jacobian) and its own map from these to its variables"]
import contextlib

import blackjax
import jax
import numpy as np
import pymc as pm
import pymc_extras

from checks.fits import quiet
from checks.jaxed import compare, evaluate, letters, on_terms, programs, validate
from vlib import alg, smt

pathfinder = blackjax.vi.pathfinder


class Finder:
    """stands in for blackjax.vi.pathfinder"""

    def __init__(self, numbers):
        self.numbers, self.calls, self.asked = numbers, [], []

    def approximate(self, *args, **k):
        self.calls.append(dict(zip(("rng_key", "logdensity_fn", "initial_position", "num_samples"), args)) | k)
        return "state", None

    def sample(self, *args, **k):
        a = dict(zip(("rng_key", "state", "num_samples"), args)) | k
        self.asked.append(a)
        n, d = int(a.get("num_samples", 1)), len(self.calls[0]["initial_position"])
        self.points = letters("x", (n, d), self.numbers)
        if self.numbers is not None:
            self.points = jax.numpy.asarray(self.points)
        return self.points, None


def run_real(S, build, n, how, numbers):
    from pymc_extras.inference.pathfinder import fit_pathfinder

    f = Finder(numbers)
    keep = pathfinder.approximate, pathfinder.sample
    with contextlib.ExitStack() as st:
        st.enter_context(quiet())
        model = build()
        if numbers is None:
            st.enter_context(on_terms())
        st.callback(setattr, pathfinder, "approximate", keep[0])
        st.callback(setattr, pathfinder, "sample", keep[1])
        pathfinder.approximate, pathfinder.sample = f.approximate, f.sample
        args = dict(samples=n, random_seed=1, maxiter=17)
        with S.encoding():
            if how == "argument":
                idata = fit_pathfinder(model=model, **args)
            elif how == "dispatch":
                idata = pymc_extras.fit(method="pathfinder", model=model, **args)
            else:
                with model:
                    idata = pymc_extras.fit(method="pathfinder", **args)
            density = [f.calls[0]["logdensity_fn"](f.points[i]) for i in range(n)]
    got = {f"report/{k}": v.values for k, v in idata.posterior.data_vars.items()}
    got["density"] = np.array([np.asarray(x)[()] for x in density], dtype=object)
    return model, idata, f, got


def run(S, name, n, how):
    bound, build = programs()[name]
    S.bound(f"{bound}; {n} arbitrary points")

    def body():
        model, idata, f, got = run_real(S, build, n, how, None)
        start = model.initial_point()
        with quiet():
            logp, named = model.logp(), model.unobserved_value_vars
        report = [v for v in named if v not in model.value_vars or v.name in {r.name for r in model.free_RVs}]
        rows = []
        for i in range(n):
            point, o = {}, 0
            for v in model.value_vars:
                s = np.shape(start[v.name])
                k = int(np.prod(s))
                point[v] = np.asarray(f.points[i, o : o + k], dtype=object).reshape(s)
                o += k
            rows.append(evaluate([logp, *report], point))
        want = {"density": np.array([r[0][()] for r in rows], dtype=object)}
        for j, v in enumerate(report):
            want[f"report/{v.name}"] = np.stack([r[1 + j] for r in rows])[None]
        return model, idata, f, got, want, start

    p = 0
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        p += 1
        if kind == "raise":
            raise res
        model, idata, f, got, want, start = res
        compare(S, got, want, path, f"@p{p}" if p > 1 else "", lambda a: run_real(S, build, n, how, a)[3])
        if p > 1:
            continue
        if not S.violations:
            validate(S, got, lambda a: run_real(S, build, n, how, a)[3])
        x0 = np.concatenate([np.ravel(start[v.name]) for v in model.value_vars])
        S.concrete("start", len(f.calls) == 1 and np.allclose(np.asarray(f.calls[0]["initial_position"]), x0), "does not start at the model's initial point")
        S.concrete("options", f.calls[0].get("maxiter") == 17 and f.asked[0].get("state") == "state", "options do not reach the algorithm")
        for v in idata.posterior.data_vars:
            dims = model.named_vars_to_dims.get(v)
            if dims:
                S.concrete(f"dims/{v}", idata.posterior[v].dims == ("chain", "draw", *dims) and all(model.coords[d] is None or [str(x) for x in idata.posterior[d].values] == [str(x) for x in model.coords[d]] for d in dims), f"{v} has dims {idata.posterior[v].dims}")


def cases(tier):
    out = []
    for j, name in enumerate(programs()):
        out.append((name, lambda S, name=name, j=j: run(S, name, 1 + j % 3, ("argument", "dispatch", "context")[j % 3])))
    return out
