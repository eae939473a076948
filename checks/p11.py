TITLE = "Conditional and unconditional samples follow the state space model's law"
ASSUMPTIONS = ["real arithmetic; the default covariance jitter is encoded as 0",
               "a multivariate normal draw is its mean plus noise of its covariance; pm.sample_posterior_predictive samples the model it is given, at the parameter draws it is given",
               "a small user-defined model with every matrix in use stands for all models; the model classes themselves are P06-P09"]
import types

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks import core
from checks.p04 import exact_smoother
from checks.p10 import as_kind, numbers
from vlib import alg, gauss, ptsym
from vlib.gauss import dot, msum, quad


def idata(group):
    return types.SimpleNamespace(**{group: group})


def fitted(p, n, filter_type="standard", exog=None, kind="numpy", nan=(), coords=True, fill=None):
    """a model that has been built on data, with its parameters"""
    values = numbers(n, p)
    for t, i in nan:
        values[t, i] = np.nan
    mod = core.make_model(p, exog, filter_type, coords=coords)
    with core.quiet(), pm.Model(coords=mod.coords if coords else None):
        core.declare(mod, p, None, exog, n)
        mod.build_statespace_graph(as_kind(values, kind, p), mode="FAST_COMPILE", **({} if fill is None else {"missing_fill_value": fill}))
    return mod, values


def check_parameters(S, c, group, p, extra=()):
    S.concrete("parameters", sorted(v.name for v in c.model.free_RVs if v.name in core.shapes(p)) == sorted(core.shapes(p)), f"free variables {c.model.free_RVs}")
    S.concrete("draws", c.trace == group, f"sampled at {c.trace!r}, required the {group} group")


def givens_of(model, v):
    return {model[k]: x for k, x in v.items()}


def flat(M):
    return np.array([*M.ravel()], dtype=object)


def conditional(S, p, n, filter_type="standard", exog=None, nan=(), sym=("init", "drift", "level"), group="posterior", new_data=None, coords=True, fill=None, only=None):
    S.bound(f"{n} steps, {p} series, {filter_type} filter, {group} group; symbolic {', '.join(sym)}" + (f"; exogenous {exog}" if exog else "") + (f"; missing at {nan}" if nan else "")
            + ("; conditioned on new data" if new_data else ""))
    v, ass = core.params(p, sym)
    with S.encoding(), core.quiet():
        mod, values = fitted(p, n, filter_type, exog, nan=nan, coords=coords, fill=fill)
        kw = {}
        if new_data:
            values = -0.5 * numbers(n, p)[::-1] + 0.25
            kw["data"] = values
        c = core.capture(getattr(mod, f"sample_conditional_{group}"), idata(group), **kw)
    check_parameters(S, c, group, p)
    names = [f"{f}_{group}{s}" for f in ("filtered", "predicted", "smoothed") for s in ("", "_observed")]
    S.concrete("names", c.names == names, f"samples {c.names}, required {names}")
    mats = core.matrices(v, p, exog, 0, n)
    obs = lambda t: [i for i in range(p) if (t, i) not in nan]
    y = ptsym.to_obj(values)

    def moments():
        ref = gauss.filt(y, *[mats[k] for k in core.ORDER], obs)
        sm = exact_smoother({"y": y} | mats, obs)
        return {"filtered": (ref["af"], ref["Pf"]), "predicted": (ref["ap"], ref["Pp"]), "smoothed": (sm[0], sm[1])}

    for f in ("filtered", "predicted", "smoothed"):
        for suffix in ("", "_observed"):
            name = f"{f}_{group}{suffix}"
            if only and name not in only:
                continue

            def spec(f=f, suffix=suffix):
                m, P = moments()[f]
                if suffix:
                    Z, d = mats["Z"], mats["d"]
                    m, P = (np.stack([msum(dot(gauss.at(Z, t, 2), m[t]), gauss.at(d, t, 1)) for t in range(n)]),
                            np.stack([msum(quad(gauss.at(Z, t, 2), P[t]), mats["H"]) for t in range(n)]))
                k = m.shape[1]
                V = ptsym.to_obj(np.zeros((n * k, n * k)))
                for t in range(n):
                    V[t * k : t * k + k, t * k : t * k + k] = P[t]
                return [(n, k)], flat(m), V

            core.laws(S, name, [c.model[name]], givens_of(c.model, v), spec, ass)


def unconditional(S, p, n, steps=None, exog=None, sym=("init", "drift", "level"), group="posterior", use_data_time_dim=False, coords=True, kind="numpy", measurement=True):
    rows = n if steps is None or use_data_time_dim else steps + 1
    S.bound(f"{n} data rows, steps={steps}, {p} series, {group} group; symbolic {', '.join(sym)}" + (f"; exogenous {exog}" if exog else "")
            + ("; use_data_time_dim" if use_data_time_dim else "") + ("" if measurement else "; no measurement error"))
    v, ass = core.params(p, sym)
    with S.encoding(), core.quiet():
        mod, _ = fitted(p, n, "standard", exog, kind=kind, coords=coords)
        mod.measurement_error = measurement
        try:
            c = core.capture(getattr(mod, f"sample_unconditional_{group}"), idata(group), steps=steps, use_data_time_dim=use_data_time_dim)
        except ValueError as e:
            S.concrete("builds", False, f"raises {e}")
            return
    check_parameters(S, c, group, p)
    names = [f"{group}_latent", f"{group}_observed"]
    S.concrete("names", c.names == names, f"samples {c.names}")
    if coords:
        want = list(range(rows)) if steps is not None and not use_data_time_dim else list(mod._fit_coords["time"])
        S.concrete("time", list(c.model.coords["time"]) == want, f"time coordinate {c.model.coords['time']}, required {want}")
    mats = core.matrices(v, p, exog, 0, n)

    def spec():
        m, V = gauss.joint(rows, *[mats[k] for k in core.ORDER])
        return [(rows, core.K), (rows, p)], m, V

    core.laws(S, "law", [c.model[x] for x in names], givens_of(c.model, v), spec, ass)


def direct(S, p, steps, tv=(), append_x0=True, sym=("init", "drift", "level")):
    """LinearGaussianStateSpace used directly, with time-varying matrices; without the initial state the
    observation and transition at row t use the matrices of row t"""
    from pymc_extras.statespace.filters.distributions import LinearGaussianStateSpace

    rows = steps + 1 if append_x0 else steps
    S.bound(f"{steps} steps, {p} series, time-varying {', '.join(tv) or 'none'}, append_x0={append_x0}; symbolic {', '.join(sym)}")
    v, ass = core.params(p, sym)
    mats = core.matrices(v, p)
    n = steps + 1
    for j, name in enumerate(tv):
        x = mats[name]
        shift = np.eye(*x.shape) if x.ndim > 1 else np.ones(len(x))
        mats[name] = np.stack([msum(x, ptsym.to_obj(shift * (t * (t + 1 + j) / 2.0))) for t in range(n)])
    with S.encoding(), core.quiet():
        pv = {k: pt.tensor('m_' + k, shape=mats[k].shape, dtype='float64') for k in core.ORDER}
        with pm.Model() as m:
            lat, obs = LinearGaussianStateSpace("s", *[pv[k] for k in core.ORDER], steps=steps, k_endog=p, sequence_names=list(tv), append_x0=append_x0)

    def spec():
        M = {k: mats[k] for k in core.ORDER}
        if not append_x0:
            # x_0, transition row 0, observation row 0: rows of the observation matrices are shifted by one
            for k, nd in (("d", 1), ("Z", 2), ("H", 2)):
                if M[k].ndim > nd:
                    M[k] = np.concatenate([M[k][:1], M[k]])
        mean, V = gauss.joint(steps + 1, *[M[k] for k in core.ORDER])
        if append_x0:
            return [(rows, core.K), (rows, p)], mean, V
        keep = [i for i in range(core.K, core.K * (steps + 1))] + [core.K * (steps + 1) + i for i in range(p, p * (steps + 1))]
        return [(rows, core.K), (rows, p)], mean[keep], V[np.ix_(keep, keep)]

    core.laws(S, "law", [lat, obs], {pv[k]: mats[k] for k in core.ORDER}, spec, ass)
    if append_x0:
        with S.encoding(), core.quiet():
            l2, o2 = LinearGaussianStateSpace.dist(*[pv[k] for k in core.ORDER], steps=steps, sequence_names=list(tv))
        core.laws(S, "dist", [l2, o2], {pv[k]: mats[k] for k in core.ORDER}, spec, ass)


def sequence(S, batch=()):
    from pymc_extras.statespace.filters.distributions import SequenceMvNormal

    S.bound(f"3 steps, 2 components, batch {batch}; symbolic means and covariances")
    mus = alg.array("m", (*batch, 3, 2))
    covs = np.empty((*batch, 3, 2, 2), dtype=object)
    for j, b in enumerate(np.ndindex(*batch, 3)):
        covs[b] = alg.array(f"V{j}", (2, 2), sym=True)
    with S.encoding():
        pmus, pcovs = pt.tensor("mus", shape=mus.shape, dtype="float64"), pt.tensor("covs", shape=covs.shape, dtype="float64")
        x = SequenceMvNormal.dist(pmus, pcovs, pt.zeros((*batch, 3)))

    def spec():
        V = ptsym.to_obj(np.zeros((mus.size, mus.size)))
        for j, b in enumerate(np.ndindex(*batch, 3)):
            V[2 * j : 2 * j + 2, 2 * j : 2 * j + 2] = covs[b]
        return [mus.shape], flat(mus), V

    core.laws(S, "law", [x], {pmus: mus, pcovs: covs}, spec, [])


def matrices_sampled(S, names, p=1, n=3, exog=None, group="posterior", sym=("init", "drift", "level", "rho", "sigma_obs", "sigma_state", "init_cov")):
    S.bound(f"{p} series, matrices {names}, {group} group; symbolic parameters" + (f"; exogenous {exog}" if exog else ""))
    v, ass = core.params(p, sym)
    with S.encoding(), core.quiet():
        mod, _ = fitted(p, n, exog=exog)
        c = core.capture(mod.sample_statespace_matrices, idata(group), names, group=group)
    check = ["x0", "P0", "c", "d", "T", "Z", "R", "H", "Q"] if names is None else [names] if isinstance(names, str) else names
    S.concrete("names", list(c.names) == check, f"samples {c.names}, required {check}")
    mats = core.matrices(v, p, exog, 0, n)
    long = {"initial_state": "a0", "initial_state_cov": "P0", "state_intercept": "c", "obs_intercept": "d", "transition": "T", "design": "Z", "selection": "R",
            "obs_cov": "H", "state_cov": "Q", "x0": "a0"}
    S.graph("matrices", [c.model[k] for k in check], givens_of(c.model, v), lambda: [mats[long.get(k, k)] for k in check], ass, labels=check)


def matrices_of_sarima(S):
    """a library model whose parameters have the names of matrices; the names of the result are those asked for"""
    from pymc_extras.statespace import BayesianSARIMA

    S.bound("SARIMA(1, 0, 1) in the representation with parameters x0 and P0, all matrices (finite structure and their values)")
    with S.encoding(), core.quiet():
        mod = BayesianSARIMA(order=(1, 0, 1), stationary_initialization=False, measurement_error=True, verbose=False)
        with pm.Model(coords=mod.coords):
            for n, i in mod.param_info.items():
                pm.Flat(n, shape=i["shape"]) if not i["dims"] else pm.Flat(n, dims=i["dims"])
            mod.build_statespace_graph(numbers(3, 1), mode="FAST_COMPILE")
        names = ["x0", "P0", "T", "Q", "H"]
        c = core.capture(mod.sample_statespace_matrices, idata("posterior"), names)
    v = {n: alg.array(n, tuple(i["shape"])) if i["shape"] else ptsym.arr0(alg.var(n)) for n, i in mod.param_info.items()}
    S.concrete("number", len(c.names) == 5 and len(set(c.names)) == 5, f"samples {c.names}")

    def spec():
        one = lambda x: ptsym.to_obj(np.array(x, dtype=object))
        sq = lambda x: one([[alg.T(x.item()) ** 2]])
        Tm = one([[v["ar_params"][0], 1], [0, 0]])
        return [v["x0"], v["P0"], Tm, sq(v["sigma_state"]), sq(v["sigma_obs"])]

    S.graph("matrices", [c.model[k] for k in c.names], givens_of(c.model, v), spec, [], labels=names)
    fake = pm.sample_posterior_predictive

    def sampler(trace, *a, var_names=None, **k):
        import arviz as az

        return az.from_dict(posterior_predictive={n: np.zeros((1, 1, *pm.modelcontext(None)[n].type.shape)) for n in var_names})

    pm.sample_posterior_predictive = sampler
    try:
        with core.quiet():
            got = mod.sample_statespace_matrices(idata("posterior"), names)
    finally:
        pm.sample_posterior_predictive = fake
    S.concrete("result", sorted(got.posterior_predictive.data_vars) == sorted(names), f"result has {list(got.posterior_predictive.data_vars)}, required {names}")


def refuses(S):
    S.bound("unknown groups, models without data (finite structure)")
    with core.quiet():
        mod, _ = fitted(1, 3)
    for label, fn in (("group", lambda: mod._sample_conditional(idata("posterior"), "nonsense")), ("steps", lambda: mod.sample_unconditional_posterior(idata("posterior"), steps=7, use_data_time_dim=True))):
        try:
            with core.no_sampling(), core.quiet():
                fn()
        except core.Captured:
            S.concrete(label, False, "is accepted")
        except ValueError:
            S.concrete(label, True, "")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append((name, lambda S: fn(S, *a, **k)))

    for f in ("standard", "univariate", "cholesky"):
        add(f"conditional-{f}", conditional, 1, 3, f)
    add("conditional-p2", conditional, 2, 2)
    add("conditional-missing", conditional, 2, 3, nan=((1, 0), (2, 1)))
    add("conditional-missing-fill", conditional, 2, 2, nan=((1, 0),), fill=-55.5)
    add("conditional-exog", conditional, 1, 3, exog=["xa"])
    add("conditional-exog-two-data", conditional, 1, 3, exog=["xa", "xb"])
    add("conditional-prior", conditional, 1, 3, group="prior")
    add("conditional-new-data", conditional, 1, 3, new_data=True)
    add("conditional-no-coords", conditional, 1, 2, coords=False)
    add("conditional-noise", conditional, 1, 2, sym=("rho", "sigma_obs", "sigma_state"), only=("predicted_posterior", "predicted_posterior_observed", "filtered_posterior_observed"))
    add("unconditional", unconditional, 1, 4)
    add("unconditional-p2", unconditional, 2, 3)
    add("unconditional-steps", unconditional, 2, 3, steps=4)
    add("unconditional-fewer-steps", unconditional, 1, 4, steps=2)
    add("unconditional-data-dim", unconditional, 1, 3, use_data_time_dim=True)
    add("unconditional-data-dim-steps", unconditional, 1, 3, steps=3, use_data_time_dim=True)
    add("unconditional-dates", unconditional, 1, 3, kind="date-frame")
    add("unconditional-prior", unconditional, 1, 3, group="prior", steps=2)
    add("unconditional-exog", unconditional, 1, 4, exog=["xa"])
    add("unconditional-exog-p2", unconditional, 2, 3, exog=["xa", "xb"])
    add("unconditional-noise", unconditional, 1, 3, sym=("rho", "init_cov", "sigma_obs", "sigma_state"))
    add("unconditional-no-coords", unconditional, 1, 3, coords=False, steps=2)
    add("unconditional-perfect", unconditional, 1, 3, measurement=False)
    for tv in ((), ("c", "T"), ("d", "Z"), ("R", "Q"), ("H",), ("c", "d", "T", "Z", "R", "H", "Q")):
        add(f"lgss-tv-{''.join(tv) or 'none'}", direct, 2, 3, tv)
        add(f"lgss-no-x0-{''.join(tv) or 'none'}", direct, 1, 3, tv, append_x0=False)
    add("sequence", sequence)
    add("sequence-batch", sequence, (2,))
    add("matrices", matrices_sampled, ["T", "Z", "obs_cov", "Q"])
    add("matrices-all", matrices_sampled, None, p=2)
    add("matrices-one", matrices_sampled, "initial_state_cov", group="prior")
    add("matrices-exog", matrices_sampled, ["design", "d", "c"], exog=["xa", "xb"])
    add("matrices-sarima", matrices_of_sarima)
    add("refuses", refuses)
    if tier == "thorough":
        add("conditional-long", conditional, 2, 4)
        add("unconditional-long", unconditional, 2, 6)
        add("unconditional-P0-long", unconditional, 2, 4, sym=("rho", "init_cov", "sigma_obs", "sigma_state"))
        add("lgss-long", direct, 2, 5, ("c", "d", "T", "Z", "R", "H", "Q"))
    return out
