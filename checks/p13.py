TITLE = "Impulse responses are the model's own response to the stated shock"
ASSUMPTIONS = ["real arithmetic; a multivariate normal draw is its mean plus noise of its covariance; pm.sample_posterior_predictive samples the model it is given, at the parameter draws it is given",
               "the response is the state recursion started at zero, state intercept included, with no shock but the stated one",
               "a shock size is taken as the first shock itself, as the code has it (the docstring speaks of a covariance)"]
import numpy as np
import pymc as pm
import pytensor.tensor as pt

from pytensor.graph.basic import Constant, ancestors
from pytensor.graph.replace import clone_replace

from checks import core
from checks.p11 import check_parameters, fitted, givens_of, idata
from vlib import alg, ptsym
from vlib.alg import T
from vlib.gauss import dot, msum, quad

ALL = ("drift", "level", "rho", "sigma_obs", "sigma_state", "init")


def symbolize(out, value, name, givens):
    """out with the numbers `value` the user passed replaced by symbols: out, givens, symbols; the concrete values if
    they do not appear as they are"""
    hits = [v for v in ancestors([out]) if isinstance(v, Constant) and np.shape(v.data) == value.shape and np.array_equal(v.data, value)]
    if not hits:
        return out, givens, ptsym.to_obj(value)
    x = pt.tensor(name, shape=value.shape, dtype="float64")
    sym = alg.array(name, value.shape)
    inputs = {g: g.type(name=g.name) for g in givens}
    [out] = clone_replace([out], {h: x.astype(h.type.dtype) for h in hits} | inputs)
    return out, {inputs[g]: a for g, a in givens.items()} | {x: sym}, sym


def response(v, p, shocks):
    """rows x_1 .. x_n of x_t = c + T x_{t-1} + R shock_t from x_0 = 0"""
    M = core.matrices(v, p)
    x = ptsym.to_obj(np.zeros(core.K))
    out = []
    for e in shocks:
        x = msum(msum(M["c"], dot(M["T"], x)), dot(M["R"], e))
        out.append(x)
    return np.stack(out)


def run(S, p, **kw):
    with S.encoding():
        return build(p, **kw)


def build(p, **kw):
    with core.quiet():
        mod, _ = fitted(p, 3, coords=kw.pop("coords", True), filter_type=kw.pop("filter_type", "standard"), exog=kw.pop("exog", None))
        return mod, core.capture(mod.impulse_response_function, idata("posterior").posterior, **kw)


def check_run(S, c, p, n):
    check_parameters(S, c, "posterior", p)
    S.concrete("names", c.names == ["irf"], f"samples {c.names}")
    S.concrete("time", list(c.model.coords["time"]) == list(range(n)), f"time coordinate {c.model.coords['time']}")
    S.concrete("dims", tuple(c.model.named_vars_to_dims["irf"]) == ("time", "state"), f"dims {c.model.named_vars_to_dims['irf']}")


def drawn(S, p, n, shock_cov=None, orthogonal=False, sym=("drift", "rho", "sigma_state"), **kw):
    """the first shock is drawn with the covariance of the model, or the given one"""
    S.bound(f"{p} shocks, {n} steps, " + ("covariance of the model" if shock_cov is None else "given covariance") + f"; symbolic {', '.join(sym)}")
    v, ass = core.params(p, sym)
    if shock_cov is not None:
        kw["shock_cov"] = shock_cov
    _, c = run(S, p, n_steps=n, **kw)
    check_run(S, c, p, n)
    out, givens, cov = c.model["irf"], givens_of(c.model, v), core.matrices(v, p)["Q"]
    if shock_cov is not None:
        out, givens, cov = symbolize(out, shock_cov, "q", givens)

    def spec():
        # every component is affine in the first shock: columns by linearity
        zero = ptsym.to_obj(np.zeros((n, p)))
        base = response(v, p, zero).ravel()
        L = np.empty((len(base), p), dtype=object)
        for j in range(p):
            e = zero.copy()
            e[0, j] = T(1)
            L[:, j] = [T(a) - b for a, b in zip(response(v, p, e).ravel(), base)]
        return [(n, core.K)], base, quad(L, cov)

    core.laws(S, "law", [out], givens, spec, ass)


def given(S, p, shape, n, sym=ALL, arg="shock_size", **kw):
    """a shock of given size at the first step, or a given trajectory"""
    S.bound(f"{p} shocks, {n} steps, {arg} of shape {shape}; symbolic shocks and {', '.join(sym)}")
    v, ass = core.params(p, sym)
    size = int(np.prod(shape))
    value = (np.arange(size) * 1.0625 + 0.53125).reshape(shape) * (-1) ** np.arange(size).reshape(shape)
    _, c = run(S, p, **{arg: value if shape else float(value)}, **kw, **({} if arg == "shock_trajectory" and n == shape[0] else {"n_steps": n}))
    if arg == "shock_trajectory":
        n = shape[0]
    check_run(S, c, p, n)
    out, givens, e = symbolize(c.model["irf"], np.atleast_1d(value), "e", givens_of(c.model, v))

    def spec():
        shocks = ptsym.to_obj(np.zeros((n, p)))
        shocks[: len(e) if arg == "shock_trajectory" else 1] = e if arg == "shock_trajectory" else np.broadcast_to(e, (p,))
        return [response(v, p, shocks)]

    S.graph("response", [out], givens, spec, ass)


def orthogonal(S, given):
    """the orthogonalised shocks are still drawn from a normal law: its covariance is symmetric"""
    S.bound("2 shocks, 1 step; symbolic standard deviations")
    v, ass = core.params(2, ("sigma_state",))
    kw = {"shock_cov": np.array([[2.0, 0.5], [0.5, 1.0]])} if given else {}
    _, c = run(S, 2, n_steps=1, orthogonalize_shocks=True, **kw)
    noise = core.Noise()

    def covariance(_):
        [Q] = noise.covs
        return [np.asarray(Q, dtype=object)]

    def real(assign):
        import pytensor

        node = next(v.owner for v in ancestors([c.model["irf"]]) if v.owner and "MvNormal" in type(v.owner.op).__name__)
        sd = [float(alg.NumEval(assign)(T(x))) for x in v["sigma_state"]]
        Q = pytensor.function([c.model["sigma_state"]], node.inputs[-1], mode="FAST_COMPILE", on_unused_input="ignore")(sd)
        return [Q]

    def spec():
        [Q] = noise.covs
        return [np.asarray(Q, dtype=object).T]

    S.graph("symmetric", [c.model["irf"]], givens_of(c.model, v), spec, ass, rv_handler=noise, transform=covariance, real=real)


def refuses(S):
    S.bound("arguments that contradict each other or the model (finite structure)")
    Q = np.eye(2)
    for label, kw in {"size-and-cov": dict(shock_size=1.0, shock_cov=Q), "size-and-trajectory": dict(shock_size=1.0, shock_trajectory=np.ones((3, 2))),
                      "cov-and-trajectory": dict(shock_cov=Q, shock_trajectory=np.ones((3, 2))), "narrow-trajectory": dict(shock_trajectory=np.ones((3, 1))),
                      "nothing": dict(use_posterior_cov=False)}.items():
        try:
            build(2, **kw)
        except (ValueError, TypeError) as e:
            S.concrete(label, True, str(e))
        except Exception as e:
            S.concrete(label, False, f"raises {type(e).__name__}: {e}")
        else:
            S.concrete(label, False, "is accepted")


def compile_kwargs(S):
    """further arguments reach pm.sample_posterior_predictive"""
    S.bound("compile_kwargs and progressbar (finite structure)")
    for label, kw in {"mode": dict(compile_kwargs={"mode": "FAST_COMPILE"}), "other": dict(compile_kwargs={"on_unused_input": "ignore"}), "progressbar": dict(progressbar=False)}.items():
        try:
            run(S, 1, n_steps=2, **kw)
            S.concrete(label, True, "")
        except Exception as e:
            S.concrete(label, False, f"raises {type(e).__name__}: {e}")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append((name, lambda S: fn(S, *a, **k)))

    for p in (1, 2):
        for n in (1, 3):
            add(f"model-cov-p{p}-n{n}", drawn, p, n)
            add(f"size-p{p}-n{n}", given, p, (), n)
            add(f"size-array-p{p}-n{n}", given, p, (p,), n)
            add(f"trajectory-p{p}-n{n}", given, p, (n, p), n, arg="shock_trajectory")
    add("cov-p1", drawn, 1, 3, shock_cov=np.array([[2.5]]))
    add("cov-p2", drawn, 2, 3, shock_cov=np.array([[2.5, 0.5], [0.5, 1.25]]))
    add("cov-ignores-posterior", drawn, 2, 2, shock_cov=np.array([[2.5, 0.5], [0.5, 1.25]]), use_posterior_cov=True)
    add("trajectory-sets-length", given, 1, (2, 1), 7, arg="shock_trajectory")
    add("trajectory-longer", given, 2, (4, 2), 2, arg="shock_trajectory")
    add("trajectory-orthogonal", given, 2, (3, 2), 3, arg="shock_trajectory", orthogonalize_shocks=True)
    add("size-orthogonal", given, 2, (2,), 3, orthogonalize_shocks=True)
    add("exogenous", drawn, 2, 2, exog=["xa", "xb"])
    for f in ("univariate", "cholesky"):
        add(f"filter-{f}", drawn, 2, 2, filter_type=f)
    add("no-coords-default", given, 1, (), 40)
    if tier == "thorough":
        add("model-cov-long", drawn, 2, 6)
        add("trajectory-long", given, 2, (6, 2), 6, arg="shock_trajectory")
    add("orthogonal-given", orthogonal, True)
    add("refuses", refuses)
    add("compile", compile_kwargs)
    return out
