TITLE = "A model built from data has the log density and filter outputs of its matrices"
ASSUMPTIONS = ["real arithmetic; the default covariance jitter is encoded as 0 (2**-10, in the reference too, where the univariate filter meets missing values)", "parameters have flat priors, so that the model's log density is the log density of the data",
               "a small user-defined model with every matrix in use stands for all models; the model classes themselves are P06-P09"]
import numpy as np
import pandas as pd
import pymc as pm
import pytensor.tensor as pt

from pytensor.graph.replace import graph_replace

from checks import core
from checks.p04 import exact_smoother
from vlib import alg, gauss, ptsym
from vlib.alg import T

KEYS = {"filtered_state": "af", "predicted_state": "ap", "predicted_observed_state": "ym",
        "filtered_covariance": "Pf", "predicted_covariance": "Pp", "predicted_observed_covariance": "F"}


def numbers(n, p):
    return np.array([[0.75, -1.5], [2.5, 1.25], [-0.5, 3.0], [1.125, -0.25], [2.0, 0.5]])[:n, :p].copy()


def as_kind(values, kind, p):
    cols = [f"obs{i}" for i in range(p)]
    if kind == "numpy":
        return values
    if kind == "range-frame":
        return pd.DataFrame(values, columns=cols)
    if kind == "date-frame":
        return pd.DataFrame(values, columns=cols, index=pd.date_range("2020-01-01", periods=len(values), freq="MS"))
    if kind == "series":
        return pd.Series(values[:, 0], name="obs0", index=pd.date_range("2020-01-01", periods=len(values), freq="D"))
    if kind == "tensor":
        return pt.constant(values)
    raise ValueError(kind)


def built(S, p, n, filter_type="standard", exog=None, sym=("init", "drift", "level"), kind="numpy", nan=(), fill=None, outputs=False, coords=True,
          register=True, jitter=None, twice=False):
    S.bound(f"{n} steps, {p} series, {filter_type} filter, data as {kind}; symbolic {', '.join(sym)}" + ("" if kind != "numpy" or not register else " and the data")
            + (f"; exogenous {exog}" if exog else "") + (f"; missing at {nan}" if nan else ""))
    v, ass = core.params(p, sym)
    values = numbers(n, p)
    for t, i in nan:
        values[t, i] = np.nan
    kw = {} if fill is None else {"missing_fill_value": fill}
    if jitter is not None:
        kw["cov_jitter"] = jitter
    with S.encoding(), core.quiet():
        mod = core.make_model(p, exog, filter_type, coords=coords)
        for _ in range(2 if twice else 1):
            with pm.Model(coords=mod.coords if coords else None) as m:
                core.declare(mod, p, v, exog, n)
                mod.build_statespace_graph(as_kind(values, kind, p), save_kalman_filter_outputs_in_idata=outputs, register_data=register, mode="FAST_COMPILE", **kw)
        logp = m.logp(jacobian=False)
        outs = [logp] + ([m[k] for k in KEYS] + [m["smoothed_state"], m["smoothed_covariance"]] if outputs else [])
        if outputs:
            outs = [logp, *m.replace_rvs_by_values(outs[1:])]
    y = ptsym.to_obj(values)
    givens = {m.rvs_to_values[m[k]]: v[k] for k in v}
    if register and kind == "numpy":
        y = alg.array("y", (n, p))
        for t, i in nan:
            y[t, i] = T(-9999.0 if fill is None else fill)
        data = pt.tensor("data_in", shape=(n, p), dtype="float64")
        outs = graph_replace(outs, {m["data"]: data}, strict=False)
        givens[data] = y
        ass = ass + [alg.bnot(alg.eq(e, -9999.0 if fill is None else fill)) for t, row in enumerate(y) for i, e in enumerate(row) if (t, i) not in nan]
    mats = core.matrices(v, p, exog, 0, n)
    obs = lambda t: [i for i in range(p) if (t, i) not in nan]

    def spec():
        ref = gauss.filt(y, *[mats[k] for k in core.ORDER], obs, jitter=jitter or 0, obs_jitter=jitter or 0)
        ll = ptsym.arr0(sum(ref["ll"][1:], T(ref["ll"][0])))
        if not outputs:
            return [ll]
        return [ll] + [ref[k] for k in KEYS.values()] + list(exact_smoother({"y": y} | mats, obs))

    S.graph("model", outs, givens, spec, ass, labels=["logp", *KEYS, "smoothed_state", "smoothed_covariance"], constants={1e-8: 0.0}, tol=1e-5,
            explorer={"log_positive": True}, ranges={"rho": (-0.9, 0.9)})


def coordinates(S):
    """dims and coordinates of the model after building"""
    S.bound("coordinates of a model with named states, 3 steps, for four kinds of data (finite structure)")
    for kind, want in (("numpy", range(3)), ("range-frame", range(3)), ("date-frame", pd.date_range("2020-01-01", periods=3, freq="MS")),
                       ("series", pd.date_range("2020-01-01", periods=3, freq="D"))):
        v, _ = core.params(1, ())
        with S.encoding(), core.quiet():
            mod = core.make_model(1)
            with pm.Model(coords=mod.coords) as m:
                core.declare(mod, 1, v)
                mod.build_statespace_graph(as_kind(numbers(3, 1), kind, 1), save_kalman_filter_outputs_in_idata=True)
        S.concrete(f"{kind}/time", list(m.coords["time"]) == list(want), f"time coordinate {m.coords['time']}, required {list(want)}")
        dims = {"obs": ("time", "observed_state"), "data": ("time", "observed_state"), "filtered_state": ("time", "state"),
                "predicted_covariance": ("time", "state", "state_aux"), "smoothed_state": ("time", "state")}
        for name, d in dims.items():
            got = tuple(m.named_vars_to_dims.get(name, ()))
            S.concrete(f"{kind}/dims-{name}", got == d, f"dims of {name}: {got}, required {d}")
        S.concrete(f"{kind}/observed", [x.name for x in m.observed_RVs] == ["obs"], f"observed variables {m.observed_RVs}")


def refuses(S):
    """data that does not fit the model, incomplete models"""
    S.bound("mis-shaped data, missing parameters, missing-data marker among the data (finite structure)")
    good = numbers(3, 2)

    def attempt(label, data, drop=(), **kw):
        v, _ = core.params(2, ())
        mod = core.make_model(2)
        try:
            with core.quiet(), pm.Model(coords=mod.coords):
                for name, s in core.shapes(2).items():
                    if name not in drop:
                        pm.Flat(name, shape=s)
                mod.build_statespace_graph(data, **kw)
        except (ValueError, IndexError):
            S.concrete(label, True, "")
            return
        except Exception as e:
            S.concrete(label, False, f"raises {type(e).__name__}: {e}")
            return
        S.concrete(label, False, "is accepted")

    attempt("one column short", good[:, :1])
    attempt("one-dimensional", good[:, 0])
    attempt("missing parameter", good, drop=("level",))
    bad = good.copy()
    bad[0, 0], bad[1, 1] = np.nan, -9999.0
    attempt("data equal to the marker", bad)


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append((name, lambda S: fn(S, *a, **k)))

    for f in ("standard", "univariate", "cholesky"):
        add(f"logp-{f}", built, 1, 3, f)
        add(f"logp-{f}-p2", built, 2, 2, f)
    add("logp-noise", built, 1, 2, sym=("rho", "sigma_obs", "sigma_state"))
    add("logp-P0", built, 1, 2, sym=("init_cov", "init"))
    add("logp-no-coords", built, 1, 3, coords=False)
    add("logp-zero-jitter", built, 1, 3, jitter=0.0)
    add("logp-twice", built, 1, 3, twice=True)
    add("exog", built, 1, 3, exog=["xa"])
    add("exog-2", built, 2, 2, exog=["xa"])
    add("exog-two-data", built, 1, 3, exog=["xa", "xb"])
    for kind in ("range-frame", "date-frame", "series", "tensor"):
        add(f"data-{kind}", built, 1, 3, kind=kind)
    add("data-date-frame-p2", built, 2, 3, kind="date-frame")
    add("data-unregistered", built, 1, 3, register=False)
    add("missing", built, 2, 3, nan=((1, 0), (2, 0), (2, 1)))
    add("missing-fill", built, 2, 3, nan=((1, 0), (2, 0), (2, 1)), fill=-55.5)
    add("missing-univariate", built, 2, 3, "univariate", nan=((0, 0), (2, 1)), fill=7.25, jitter=2.0**-10)
    add("missing-frame", built, 2, 3, kind="date-frame", nan=((1, 1),))
    add("outputs", built, 1, 3, outputs=True)
    add("outputs-p2", built, 2, 2, outputs=True)
    add("outputs-missing", built, 2, 3, outputs=True, nan=((1, 0),))
    add("outputs-exog", built, 1, 3, outputs=True, exog=["xa"])
    add("outputs-univariate", built, 1, 3, "univariate", outputs=True)
    if tier == "thorough":
        add("logp-long", built, 2, 5)
        add("outputs-long", built, 2, 4, outputs=True)
        add("exog-long", built, 2, 5, exog=["xa", "xb"])
        add("noise-3", built, 1, 3, sym=("rho", "sigma_obs", "sigma_state"))
    add("coordinates", coordinates)
    add("refuses", refuses)
    return out
