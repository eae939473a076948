TITLE = "SARIMA models represent the seasonal ARIMA difference equation"
ASSUMPTIONS = [
    "real arithmetic; the responses are compared for lags 0 .. 2*states, which determines the transfer function of a linear system of that many states",
    "stationary initial moments are those that solve the stationarity equations; the bilinear solver is encoded by the equation it solves",
    "the observation law follows from these matrices through P01-P03",
]
import numpy as np
import pytensor.tensor as pt

from checks import ssm
from vlib import alg


def sarima(S, order, seasonal, struct, me, stat, n=None):
    from pymc_extras.statespace import BayesianSARIMA

    p, d, q = order
    P, D, Q, s = seasonal or (0, 0, 0, 0)
    with S.encoding():
        mod = BayesianSARIMA(order=order, seasonal_order=seasonal, state_structure=struct, measurement_error=me,
                             stationary_initialization=stat, verbose=False)
        params, m, _ = ssm.build(mod)
    k = mod.k_states
    n = n or 2 * k + 1
    sym = ssm.symbols(mod)
    free = ssm.free_response(m, n)
    labels = ["shock_response", "innovation_variance", "measurement_variance", "intercepts"]
    outs = [ssm.shock_response(m, n)[:, 0, 0], m["Q"], m["H"], pt.concatenate([m["c"], m["d"]])]

    def get(name):
        return list(sym[name].flat) if name in sym else []

    def spec():
        ar = ssm.pmulp(ssm.lagpoly(get("ar_params")), ssm.lagpoly(get("seasonal_ar_params"), max(s, 1)))
        for _ in range(d):
            ar = ssm.pmulp(ar, ssm.lagpoly([1]))
        for _ in range(D):
            ar = ssm.pmulp(ar, ssm.lagpoly([1], s))
        ma = ssm.pmulp(ssm.lagpoly(get("ma_params"), 1, 1), ssm.lagpoly(get("seasonal_ma_params"), max(s, 1), 1))
        return [np.array(ssm.impulse(ar, ma, n), dtype=object),
                np.array([[alg.ipow(sym["sigma_state"][()], 2)]], dtype=object),
                np.array([[alg.ipow(sym["sigma_obs"][()], 2) if me else alg.T(0)]], dtype=object),
                ssm.zeros(k + 1)] + ([ssm.zeros(k), ssm.zeros(k, k)] if stat else [])

    if stat:
        labels += ["stationary_mean", "stationary_cov"]
        outs += [m["x0"], ssm.stationary(m)]
    S.graph("", outs, {params[x]: sym[x] for x in params}, spec, labels=labels)
    if not stat:
        # free evolution: after the moving-average memory is exhausted, y obeys the AR recursion for every initial
        # state, and the initial moments are the user's
        def spec2():
            return [sym["x0"], sym["P0"], ssm.zeros(n - k)]

        arv = _pt_ar(params, p, d, P, D, s)
        res = []
        for t in range(k, n):
            res.append(sum(arv[i] * free[t - i, 0] for i in range(min(len(arv), t + 1))))
        S.graph("init", [m["x0"], m["P0"], pt.stack(res)], {params[x]: sym[x] for x in params}, spec2,
                labels=["initial_mean", "initial_cov", "free_response"])


def _pt_ar(params, p, d, P, D, s):
    def mul(a, b):
        out = [0] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0:
                    continue
                out[i + j] = out[i + j] + x * y
        return out

    def lag(c, st):
        out = [0] * (st * len(c) + 1)
        out[0] = 1
        for i, x in enumerate(c):
            out[st * (i + 1)] = -x
        return out

    ar = mul(lag([params["ar_params"][i] for i in range(p)], 1), lag([params["seasonal_ar_params"][i] for i in range(P)], max(s, 1)))
    for _ in range(d):
        ar = mul(ar, [1, -1])
    for _ in range(D):
        ar = mul(ar, lag([1], s))
    return ar


QUICK = [
    ((1, 0, 0), None, "fast"), ((0, 0, 1), None, "fast"), ((2, 0, 1), None, "fast"), ((1, 0, 2), None, "fast"),
    ((3, 0, 3), None, "fast"), ((1, 1, 1), None, "fast"), ((2, 2, 2), None, "fast"), ((0, 1, 1), None, "fast"), ((0, 2, 0), None, "fast"),
    ((1, 0, 0), (1, 0, 0, 4), "fast"), ((0, 0, 1), (0, 0, 1, 4), "fast"), ((1, 0, 1), (1, 0, 1, 3), "fast"),
    ((2, 0, 1), (1, 0, 1, 4), "fast"), ((1, 0, 2), (2, 0, 1, 3), "fast"), ((0, 0, 0), (1, 0, 1, 4), "fast"),
    ((0, 1, 1), (0, 1, 1, 4), "fast"), ((1, 1, 0), (1, 1, 0, 3), "fast"), ((1, 1, 1), (1, 1, 1, 2), "fast"), ((0, 0, 0), (0, 1, 0, 3), "fast"), ((1, 0, 0), (0, 2, 0, 3), "fast"),
    ((2, 1, 2), (0, 2, 1, 3), "fast"), ((1, 2, 1), (1, 1, 0, 2), "fast"),
    ((1, 0, 0), None, "interpretable"), ((0, 0, 1), None, "interpretable"), ((2, 0, 1), None, "interpretable"), ((1, 0, 2), None, "interpretable"), ((3, 0, 3), None, "interpretable"),
    ((1, 0, 1), (1, 0, 1, 3), "interpretable"), ((1, 0, 0), (1, 0, 0, 4), "interpretable"), ((2, 0, 1), (1, 0, 1, 4), "interpretable"),
    ((0, 0, 0), (1, 0, 1, 3), "interpretable"), ((1, 0, 0), (0, 0, 1, 3), "interpretable"), ((0, 0, 2), (1, 0, 0, 3), "interpretable"),
]
THOROUGH = [((3, 0, 2), (1, 0, 1, 5), "fast"), ((2, 1, 3), (1, 1, 1, 4), "fast"), ((1, 0, 1), (2, 0, 2, 4), "fast"), ((3, 3, 0), None, "fast"),
            ((3, 0, 2), (1, 0, 1, 5), "interpretable"), ((2, 0, 2), (2, 0, 2, 3), "interpretable")]


def cases(tier):
    out = []
    todo = QUICK + (THOROUGH if tier == "thorough" else [])
    for i, (o, s, struct) in enumerate(todo):
        name = f"{o[0]}{o[1]}{o[2]}" + (f"x{s[0]}{s[1]}{s[2]}s{s[3]}" if s else "") + f"-{struct}"

        def run(S, o=o, s=s, struct=struct, i=i):
            S.bound(f"order {o}, seasonal {s}, {struct}; all parameters symbolic")
            sarima(S, o, s, struct, me=i % 2 == 0, stat=False)
        out.append((name, run))
    stat = [((1, 0, 0), None, "fast"), ((2, 0, 0), None, "interpretable"), ((1, 0, 1), None, "fast"), ((0, 0, 2), None, "fast"),
            ((0, 0, 0), (1, 0, 0, 3), "fast"), ((1, 0, 0), (1, 0, 0, 2), "interpretable"), ((0, 0, 1), (0, 0, 1, 4), "fast")]
    for i, (o, s, struct) in enumerate(stat):
        def run(S, o=o, s=s, struct=struct, i=i):
            S.bound(f"order {o}, seasonal {s}, {struct}, stationary initialization; all parameters symbolic")
            sarima(S, o, s, struct, me=i % 2 == 0, stat=True)
        out.append((f"stationary-{o[0]}{o[1]}{o[2]}" + (f"x{s[0]}{s[1]}{s[2]}s{s[3]}" if s else "") + f"-{struct}", run))
    return out
