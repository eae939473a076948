TITLE = "Forecasts follow the model's law from the chosen start and filter output"
ASSUMPTIONS = ["real arithmetic; the default covariance jitter is encoded as 0",
               "a multivariate normal draw is its mean plus noise of its covariance; pm.sample_posterior_predictive samples the model it is given, at the parameter draws it is given",
               "transition matrices are constant in time (no model of the library has others); the first step of a forecast with exogenous data uses the first scenario row",
               "an integer end is exclusive and a datetime end inclusive, as the repository's tests have it"]
import copy

import numpy as np
import pandas as pd
import pymc as pm

from checks import core
from checks.p04 import exact_smoother
from checks.p11 import check_parameters, fitted, givens_of, idata
from vlib import gauss, ptsym
from vlib.gauss import at

DATES = pd.date_range("2020-01-01", periods=30, freq="MS")


def law(S, p, n, t0, steps, exog=None, filter_output="smoothed", filter_type="standard", sym=("init", "drift", "level"), kind="numpy", nan=(), scenario=None, rows=None,
        coords=True, args=None, name="law"):
    """the law of a forecast of `steps` steps from row t0 of the data; rows: {data name: scenario rows}"""
    S.bound(f"{n} data rows, {steps} steps from row {t0}, {p} series, {filter_output} output of the {filter_type} filter; symbolic {', '.join(sym)}"
            + (f"; exogenous {exog}" if exog else "") + (f"; missing at {nan}" if nan else ""))
    v, ass = core.params(p, sym)
    args = args or dict(start=t0, periods=steps)
    with S.encoding(), core.quiet():
        mod, values = fitted(p, n, filter_type, exog, kind=kind, nan=nan, coords=coords)
        kw = {} if filter_output is None else {"filter_output": filter_output}
        c = core.capture(mod.forecast, idata("posterior"), scenario=scenario, **args, **kw)
    check_parameters(S, type("C", (), dict(model=c.model, trace="posterior"))(), "posterior", p)
    S.concrete("names", c.names == ["forecast_latent", "forecast_observed"], f"samples {c.names}")
    mats = core.matrices(v, p, exog, 0, n)
    future = core.matrices(v, p, exog, values=rows) if exog else mats
    obs = lambda t: [i for i in range(p) if (t, i) not in nan]
    y = ptsym.to_obj(values)

    def spec():
        ref = gauss.filt(y, *[mats[k] for k in core.ORDER], obs)
        if filter_output in (None, "smoothed"):
            m, P = exact_smoother({"y": y} | mats, obs)
        else:
            m, P = (ref["af"], ref["Pf"]) if filter_output == "filtered" else (ref["ap"], ref["Pp"])
        M = dict(future, a0=m[t0], P0=P[t0])
        for k, nd in (("d", 1), ("Z", 2)):
            if M[k].ndim > nd:
                M[k] = np.concatenate([M[k][:1], M[k]])
        mean, V = gauss.joint(steps + 1, *[M[k] for k in core.ORDER])
        keep = [i for i in range(core.K, core.K * (steps + 1))] + [core.K * (steps + 1) + i for i in range(p, p * (steps + 1))]
        return [(steps, core.K), (steps, p)], mean[keep], V[np.ix_(keep, keep)]

    core.laws(S, name, [c.model["forecast_latent"], c.model["forecast_observed"]], givens_of(c.model, v), spec, ass)


def future(name, steps, p=1, shift=4):
    return core.exog_values(name, steps, p, shift)


def frame(name, steps, p=1, index=None, order=None):
    df = pd.DataFrame(future(name, steps, p), columns=[f"{name}{i}" for i in range(p)], index=index)
    return df if order is None else df[[f"{name}{i}" for i in order]]


def scenario_case(S, make, p=1, exog=("xa",), steps=2, kind="numpy", args=None, t0=2, n=3):
    """the scenario's values reach the right rows and columns, whatever its container"""
    exog = list(exog)
    law(S, p, n, t0, steps, exog=exog, scenario=make(), rows={e: future(e, steps, p) for e in exog}, kind=kind, args=args, sym=("init", "drift", "level"))


def index(S, kind, starts):
    """the forecast's time coordinate: the `periods` steps after `start`, or those up to `end`"""
    n = 6
    S.bound(f"6 data rows ({kind}); starts {starts}, 1 and 3 periods, ends 2 and 4 steps later (finite structure)")

    def run(mod, **kw):
        with core.quiet():
            try:
                c = core.capture(mod.forecast, idata("posterior"), **kw)
            except (ValueError, TypeError, KeyError, IndexError) as e:
                return f"{type(e).__name__}: {e}"
        return list(c.model.coords["time"])

    with core.quiet():
        mod = core.make_model(1)
        with pm.Model(coords=mod.coords):
            core.declare(mod, 1, None)
            values = np.arange(float(n))[:, None]
            data = values if kind == "numpy" else pd.DataFrame(values, columns=["obs0"], index=DATES[:n])
            mod.build_statespace_graph(data, mode="FAST_COMPILE")
    label = list(range(20)) if kind == "numpy" else list(DATES)
    for start in starts:
        t = n - 1 if start is None else 3 if start == "label" else start % n
        s = label[3] if start == "label" else start
        for verbose in ((True, False) if start is None else (True,)):
            for periods in (1, 3):
                got = run(mod, start=s, periods=periods, verbose=verbose)
                want = label[t + 1 : t + 1 + periods]
                S.concrete(f"{kind}/start-{start}/periods-{periods}" + ("" if verbose else "/quiet"), got == want, f"forecast index {got}, required {want}")
            for k in (2, 4):
                got = run(mod, start=s, end=label[t + k], verbose=verbose)
                want = label[t + 1 : t + k + (kind != "numpy")]
                S.concrete(f"{kind}/start-{start}/end+{k}" + ("" if verbose else "/quiet"), got == want, f"forecast index {got}, required {want}")
    bad = {"both": dict(start=2, periods=2, end=label[6]), "neither": dict(start=2), "outside": dict(start=n + 3, periods=2), "unused-index": dict(start=2, periods=2, use_scenario_index=True)}
    for nm, kw in bad.items():
        got = run(mod, **kw)
        S.concrete(f"{kind}/refuses-{nm}", isinstance(got, str) and got.startswith("ValueError"), f"gives {got}")


def unchanged(S):
    """the caller's scenario is left as it was"""
    S.bound("scenario as a frame, a dictionary of frames, a list (finite structure)")
    for label, make in (("frame", lambda: frame("xa", 2)), ("dict", lambda: {"xa": frame("xa", 2)}), ("dict-list", lambda: {"xa": [1.0, 2.0]})):
        with core.quiet():
            mod, _ = fitted(1, 3, exog=["xa"])
            mine = make()
            before, item = copy.deepcopy(mine), next(iter(mine.values())) if isinstance(mine, dict) else mine
            core.capture(mod.forecast, idata("posterior"), start=2, periods=2, scenario=mine)
        if isinstance(mine, dict):
            S.concrete(f"{label}/entries", mine["xa"] is item, f"the dictionary now holds {mine['xa']!r}")
            after, before = item, before["xa"]
        else:
            after = item
        same = after.equals(before) and list(after.index) == list(before.index) if isinstance(after, pd.DataFrame) else after == before
        S.concrete(f"{label}/values", same, f"the scenario is now {after!r}, was {before!r}")


def refuses(S):
    S.bound("scenarios that do not fit the model (finite structure)")

    def attempt(label, p, exog, scenario, **kw):
        with core.quiet():
            mod, _ = fitted(p, 3, exog=exog)
            try:
                core.capture(mod.forecast, idata("posterior"), start=2, periods=2, scenario=scenario, **kw)
            except (ValueError, NotImplementedError):
                S.concrete(label, True, "")
                return
            except Exception as e:
                S.concrete(label, False, f"raises {type(e).__name__}: {e}")
                return
        S.concrete(label, False, "is accepted")

    attempt("absent", 1, ["xa"], None)
    attempt("too-short", 1, ["xa"], np.ones((1, 1)))
    attempt("too-long", 1, ["xa"], frame("xa", 3))
    attempt("too-many-columns", 1, ["xa"], np.ones((2, 2)))
    attempt("missing-column", 2, ["xa"], frame("xa", 2, 2)[["xa0"]])
    attempt("extra-column", 1, ["xa"], frame("xa", 2, 2))
    attempt("series-for-two", 2, ["xa"], frame("xa", 2, 2)["xa0"])
    attempt("unknown-name", 1, ["xa"], {"xz": np.ones((2, 1))})
    attempt("not-a-dict", 1, ["xa", "xb"], np.ones((2, 1)))
    attempt("unequal-lengths", 1, ["xa", "xb"], {"xa": np.ones((2, 1)), "xb": np.ones((3, 1))})
    attempt("unequal-indices", 1, ["xa", "xb"], {"xa": frame("xa", 2), "xb": frame("xb", 2, index=[5, 6])})
    attempt("one-of-two", 1, ["xa", "xb"], {"xa": np.ones((2, 1))})
    attempt("unknown-filter-output", 1, None, None, filter_output="nonsense")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append((name, lambda S: fn(S, *a, **k)))

    for fo in (None, "smoothed", "filtered", "predicted"):
        for t0 in (0, 1, 2):
            add(f"law-{fo}-{t0}", law, 1, 3, t0, 2, filter_output=fo)
    add("law-p2", law, 2, 3, 2, 3)
    add("law-p2-filtered", law, 2, 3, 1, 3, filter_output="filtered")
    for f in ("univariate", "cholesky"):
        add(f"law-{f}", law, 1, 3, 1, 2, filter_type=f)
    add("law-missing", law, 2, 3, 2, 2, nan=((1, 0), (2, 1)))
    add("law-noise", law, 1, 2, 1, 2, filter_output="filtered", sym=("rho", "sigma_obs", "sigma_state"))
    add("law-default-start", law, 1, 3, 2, 2, args=dict(periods=2))
    add("law-negative-start", law, 1, 3, 1, 2, args=dict(start=-2, periods=2))
    add("law-dates", law, 1, 3, 1, 2, kind="date-frame", args=dict(start=pd.Timestamp("2020-02-01"), periods=2))
    add("law-dates-end", law, 1, 3, 1, 3, kind="date-frame", args=dict(start=pd.Timestamp("2020-02-01"), end=pd.Timestamp("2020-05-01")))
    add("law-end", law, 1, 3, 1, 3, args=dict(start=1, end=5))
    add("law-no-coords", law, 1, 3, 2, 2, coords=False)
    for nm, make in (("array", lambda: future("xa", 2)), ("flat-array", lambda: future("xa", 2)[:, 0]), ("list", lambda: list(future("xa", 2)[:, 0])),
                     ("tuple", lambda: tuple(future("xa", 2)[:, 0])), ("frame", lambda: frame("xa", 2)), ("series", lambda: frame("xa", 2)["xa0"]),
                     ("dict-array", lambda: {"xa": future("xa", 2)}), ("dict-list", lambda: {"xa": list(future("xa", 2)[:, 0])}), ("dict-frame", lambda: {"xa": frame("xa", 2)})):
        add(f"scenario-{nm}", scenario_case, make)
    add("scenario-t0", scenario_case, lambda: future("xa", 3), t0=0, steps=3)
    add("scenario-frame-p2", scenario_case, lambda: frame("xa", 2, 2), p=2)
    add("scenario-frame-swapped", scenario_case, lambda: frame("xa", 2, 2, order=[1, 0]), p=2)
    add("scenario-frame-swapped-quiet", scenario_case, lambda: frame("xa", 2, 2, order=[1, 0]), p=2, args=dict(start=2, periods=2, verbose=False))
    add("scenario-dict-swapped", scenario_case, lambda: {"xb": frame("xb", 2, 2, order=[1, 0]), "xa": frame("xa", 2, 2)}, p=2, exog=("xa", "xb"))
    add("scenario-two", scenario_case, lambda: {"xb": future("xb", 2), "xa": frame("xa", 2)}, exog=("xa", "xb"))
    add("scenario-index", scenario_case, lambda: frame("xa", 3, index=pd.RangeIndex(2, 5)), args=dict(use_scenario_index=True), t0=1, steps=3)
    add("scenario-index-dict", scenario_case, lambda: {"xa": frame("xa", 2, index=pd.RangeIndex(3, 5))}, args=dict(use_scenario_index=True), t0=2)
    add("scenario-index-series", scenario_case, lambda: frame("xa", 2, index=pd.RangeIndex(3, 5))["xa0"], args=dict(use_scenario_index=True), t0=2)
    add("scenario-index-mixed", scenario_case, lambda: {"xa": future("xa", 2), "xb": frame("xb", 2, index=pd.RangeIndex(2, 4))}, exog=("xa", "xb"), args=dict(use_scenario_index=True), t0=1)
    add("scenario-dates", scenario_case, lambda: frame("xa", 2, index=DATES[2:4]), kind="date-frame", args=dict(use_scenario_index=True), t0=1)
    add("scenario-dates-periods", scenario_case, lambda: future("xa", 2), kind="date-frame", args=dict(start=DATES[1], periods=2), t0=1)
    if tier == "thorough":
        for fo in ("smoothed", "filtered", "predicted"):
            for t0 in range(4):
                add(f"law-long-{fo}-{t0}", law, 2, 4, t0, 4, filter_output=fo)
        add("law-noise-long", law, 1, 3, 1, 2, sym=("rho", "sigma_obs", "sigma_state"))
        add("law-cov", law, 1, 3, 2, 2, sym=("init_cov",), filter_output="filtered")
        add("scenario-long", scenario_case, lambda: {"xb": future("xb", 4, 2), "xa": frame("xa", 4, 2)}, p=2, exog=("xa", "xb"), steps=4, t0=1)
    for kind in ("numpy", "date-frame"):
        for j, starts in enumerate(((None, "label"), (0, 2, -3), (5, -1))):
            add(f"index-{kind}-{j}", index, kind, starts)
    add("unchanged", unchanged)
    add("refuses", refuses)
    return out
