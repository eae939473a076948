TITLE = "SMC targets the model's own prior and likelihood and reports its variables"
ASSUMPTIONS = ["real arithmetic; BlackJAX's tempered sampler is a stand-in that records what it is given and reports arbitrary particles, so mixing and convergence are not claimed",
               "PyMC's translation of a graph to JAX is trusted; the graph it is given is what is encoded",
               "the oracle is the model's own prior and likelihood densities of transformed variables and its own map from these to its variables"]
import contextlib
import types

import blackjax
import jax
import numpy as np
import pymc as pm
from pytensor.graph.basic import ancestors
from pytensor.tensor.random.op import RandomVariable

from checks.jaxed import compare, evaluate, letters, on_terms, programs, replaced, validate
from checks.fits import quiet
from vlib import alg, smt
from vlib.alg import T


class Tempering:
    """stands in for blackjax.adaptive_tempered_smc"""

    def __init__(self, numbers):
        self.calls, self.numbers, self.steps = [], numbers, 0

    def __call__(self, *args, **k):
        names = ("logprior_fn", "loglikelihood_fn", "mcmc_step_fn", "mcmc_init_fn", "mcmc_parameters", "resampling_fn", "target_ess", "root_solver", "num_mcmc_steps")
        self.calls.append(dict(zip(names, args)) | k)
        return types.SimpleNamespace(init=self.init, step=self.step)

    def state(self, particles, lmbda):
        n = particles[0].shape[0]
        return types.SimpleNamespace(particles=particles, lmbda=lmbda, weights=np.full(n, 1.0 / n))

    def init(self, particles, *a):
        self.start = list(particles)
        return self.state(self.start, 0.0)

    def step(self, key, state):
        self.steps += 1
        n = state.particles[0].shape[0]
        self.end = [letters(f"q{self.steps}_{j}_", p.shape, self.numbers) for j, p in enumerate(self.start)]
        if self.numbers is not None:
            self.end = [jax.numpy.asarray(p) for p in self.end]
        info = types.SimpleNamespace(log_likelihood_increment=0.25 * self.steps, ancestors=np.arange(n))
        return self.state(self.end, 0.5 * self.steps), info


def run_real(S, build, n, outside, kernel, numbers):
    drawn = {}

    from pymc_extras.inference.smc.sampling import sample_smc_blackjax  # before anything is replaced

    temper = Tempering(numbers)
    keep = blackjax.adaptive_tempered_smc
    with contextlib.ExitStack() as st:
        st.enter_context(quiet())
        model = build()
        params = {"step_size": 0.125, **({"integration_steps": 7} if kernel == "HMC" else {})}
        args = dict(n_particles=n, random_seed=1, kernel=kernel, target_essn=0.75, num_mcmc_steps=3, inner_kernel_params=params, iterations_to_diagnose=4)
        # the shapes of unknown lengths are those of the initial point
        shapes = {k: np.shape(v) for k, v in model.initial_point().items()}
        real_draw = pm.draw

        def typed(vars, draws=1, random_seed=None, **k):
            single = not isinstance(vars, list | tuple)
            shp = [np.shape(v) for v in real_draw([vars] if single else list(vars), random_seed=1)]
            out = []
            for j, (v, s) in enumerate(zip([vars] if single else vars, shp)):
                drawn[j] = (v, letters(f"d{j}_", (draws, *s), numbers))
                out.append(drawn[j][1])
            return out[0] if single else out

        if numbers is None:
            st.enter_context(on_terms())
        else:
            loop = jax.lax.while_loop
            st.callback(setattr, jax.lax, "while_loop", loop)

            def while_loop(cond, body, init):
                while bool(cond(init)):
                    init = body(init)
                return init
            jax.lax.while_loop = while_loop
        st.enter_context(replaced([(real_draw, typed)]))
        st.callback(setattr, blackjax, "adaptive_tempered_smc", keep)
        blackjax.adaptive_tempered_smc = temper

        with S.encoding():
            if outside:
                idata = sample_smc_blackjax(model=model, **args)
            else:
                with model:
                    idata = sample_smc_blackjax(**args)
            call = temper.calls[0]
            rows = [[p[i] for p in temper.end] for i in range(n)]
            prior = [call["logprior_fn"](r) for r in rows]
            like = [call["loglikelihood_fn"](r) for r in rows]
    got = {}
    for j, v in enumerate(model.value_vars):
        if j < len(temper.start):
            p = np.asarray(temper.start[j])
            got[f"start/{v.name}"] = p.reshape(n, -1)
    got["prior"] = np.array([np.asarray(x)[()] for x in prior], dtype=object)
    got["likelihood"] = np.array([np.asarray(x)[()] for x in like], dtype=object)
    for name, v in idata.posterior.data_vars.items():
        got[f"posterior/{name}"] = v.values
    return model, idata, temper, drawn, shapes, got


def run(S, name, n=2, outside=True, kernel="HMC"):
    bound, build = programs()[name]
    S.bound(f"{bound}; {n} particles with arbitrary values, {kernel}")

    def body():
        model, idata, temper, drawn, shapes, got = run_real(S, build, n, outside, kernel, None)
        rvs = {model.rvs_to_values[rv].name: j for j, rv in enumerate(model.free_RVs)}
        want = {}
        with quiet():
            prior, like, named = model.varlogp, model.datalogp, model.unobserved_value_vars
        report = {v.name: [] for v in named if v not in model.value_vars or v.name in {r.name for r in model.free_RVs}}
        pr, li = [], []
        for i in range(n):
            point = {v: np.asarray(temper.end[j][i], dtype=object).reshape(shapes[v.name]) for j, v in enumerate(model.value_vars)}
            vals = evaluate([prior, like, *named], point)
            pr.append(vals[0][()])
            li.append(vals[1][()])
            for v, x in zip(named, vals[2:]):
                if v.name in report:
                    report[v.name].append(x)
        for v in model.value_vars:
            want[f"start/{v.name}"] = np.asarray(drawn[rvs[v.name]][1], dtype=object).reshape(n, -1)
        want["prior"], want["likelihood"] = np.array(pr, dtype=object), np.array(li, dtype=object)
        for k, rows in report.items():
            want[f"posterior/{k}"] = np.stack(rows)[None]
        return model, idata, temper, drawn, shapes, got, want

    p = 0
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        p += 1
        if kind == "raise":
            raise res
        model, idata, temper, drawn, shapes, got, want = res
        tag = f"@p{p}" if p > 1 else ""
        compare(S, got, want, path, tag, lambda a: run_real(S, build, n, outside, kernel, a)[5])
        if p > 1:
            continue
        if not S.violations:
            validate(S, got, lambda a: run_real(S, build, n, outside, kernel, a)[5])
        call = temper.calls[0]
        par = call["mcmc_parameters"]
        size = sum(int(np.prod(s)) for s in shapes.values())
        S.concrete("calls", len(temper.calls) == 1 and temper.steps == 2, f"{len(temper.calls)} samplers, {temper.steps} steps until the posterior")
        S.concrete("mass", np.array_equal(np.asarray(par["inverse_mass_matrix"])[0], np.eye(size)), "the inverse mass matrix is not the identity")
        S.concrete("step", np.allclose(np.asarray(par["step_size"]), 0.125), "step size")
        S.concrete("leapfrog", ("num_integration_steps" in par) == (kernel == "HMC") and (kernel != "HMC" or np.all(np.asarray(par["num_integration_steps"]) == 7)), "integration steps")
        S.concrete("tempering", call["target_ess"] == 0.75 and call["num_mcmc_steps"] == 3, "tempering arguments")
        at = idata.posterior.attrs
        S.concrete("attributes", at["particles"] == n and at["iterations"] == 2 and at["num_mcmc_steps"] == 3 and at["target_ess"] == 0.75 and kernel in at["sampler"], f"attributes {at}")
        S.concrete("history", np.allclose(at["lambda_evolution"], [0.5, 1.0, 0, 0]) and np.allclose(at["log_likelihood_increments"], [0.25, 0.5, 0, 0]), "history of the tempering")
        for v in idata.posterior.data_vars:
            dims = model.named_vars_to_dims.get(v)
            if dims:
                S.concrete(f"dims/{v}", idata.posterior[v].dims == ("chain", "draw", *dims) and all(model.coords[d] is None or [str(x) for x in idata.posterior[d].values] == [str(x) for x in model.coords[d]] for d in dims), f"{v} has dims {idata.posterior[v].dims}")
        laws(S, model, drawn)


def laws(S, model, drawn):
    """the population is drawn from the prior, mapped to the unconstrained space"""
    for j, rv in enumerate(model.free_RVs):
        expr = drawn[j][0]
        tr = model.rvs_to_transforms[rv]
        nodes = [a for a in ancestors([expr]) if a.owner is not None and (isinstance(a.owner.op, RandomVariable) or hasattr(a.owner.op, "rng_param") or "RV" in type(a.owner.op).__name__) and a.ndim == rv.ndim and a.name == rv.name]
        if not S.concrete(f"law/{rv.name}", len(nodes) == 1 and type(nodes[0].owner.op) is type(rv.owner.op), f"initial values of {rv.name} are not drawn from its prior ({len(nodes)} draws)"):
            continue
        draw = nodes[0]
        shape = tuple(np.shape(pm.draw(rv, random_seed=1)))
        x = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            x[i] = alg.positive_var(f"l{j}" + "_".join(map(str, i)))
        with quiet():
            fwd = tr.forward(draw, *draw.owner.inputs) if tr is not None else draw
        got, want = evaluate([expr], {draw: x})[0], evaluate([fwd], {draw: x})[0]
        if S.concrete(f"space/{rv.name}/shape", got.shape == want.shape, f"{got.shape} {want.shape}"):
            for i in np.ndindex(*got.shape):
                S.equal(f"space/{rv.name}{list(i)}", T(got[i]), T(want[i]))


def cases(tier):
    out = []
    for j, name in enumerate(programs()):
        out.append((name, lambda S, name=name, j=j: run(S, name, 2, j % 2 == 0, "HMC" if j % 3 else "NUTS")))
    out.append(("three-particles", lambda S: run(S, "dims", 3, False)))
    out.append(("three-columns", lambda S: run(S, "column", 3, False)))
    if tier == "thorough":
        for name in programs():
            out.append((f"{name}-other", lambda S, name=name: run(S, name, 3, False, "NUTS")))
    return out
