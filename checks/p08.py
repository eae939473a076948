TITLE = "ETS models represent the innovations-form exponential smoothing equations"
ASSUMPTIONS = [
    "real arithmetic; the series is compared for 2 seasonal cycles plus 4 steps with symbolic parameters, initial values and shocks entering linearly",
    "the observation law follows from these matrices through P01-P03",
]
import numpy as np
import pytensor.tensor as pt

from checks import ssm
from vlib import alg, ptsym


def ets(S, order, m_, k, transformed, dense, me, stat=False):
    from pymc_extras.statespace import BayesianETS

    with S.encoding():
        mod = BayesianETS(order=order, k_endog=k, endog_names=[f"y{i}" for i in range(k)], seasonal_periods=m_, measurement_error=me,
                          use_transformed_parameterization=transformed, dense_innovation_covariance=dense,
                          stationary_initialization=bool(stat), **({'initialization_dampening': stat} if stat else {}), verbose=False)
        params, mt, _ = ssm.build(mod)
    n = (2 * m_ if m_ else 0) + 4
    sym = ssm.symbols(mod)
    trend, seas = order[1] != "N", order[2] == "A"

    def pick(name, i):
        a = sym[name]
        return a[()] if a.ndim == 0 else a[i]

    def series(i, e, init):
        """y_1..y_n of series i for shocks e_1..e_n"""
        al = pick("alpha", i)
        be = (pick("beta", i) if transformed else al * pick("beta", i)) if trend else alg.T(0)
        ga = (pick("gamma", i) if transformed else (1 - al) * pick("gamma", i)) if seas else alg.T(0)
        phi = pick("phi", i) if order[1] == "Ad" else alg.T(1)
        zero = alg.T(0)
        l = pick("initial_level", i) if init else zero
        b = pick("initial_trend", i) if init and trend else zero
        s = ([x for x in (sym["initial_seasonal"] if k == 1 else sym["initial_seasonal"][i])] if init else [zero] * m_) if seas else None
        y = []
        for t in range(n):
            st = s[-1] if seas else zero
            y.append(l + (phi * b if trend else zero) + st + e[t])
            l, b = l + (phi * b if trend else zero) + al * e[t], phi * b + be * e[t]
            if seas:
                s = [st + ga * e[t], *s[:-1]]
        return y

    def spec():
        imp = np.empty((n, k, k), dtype=object)
        imp[:] = alg.T(0)
        fr = np.empty((n, k), dtype=object)
        for i in range(k):
            imp[:, i, i] = series(i, [alg.T(1)] + [alg.T(0)] * (n - 1), False)
            fr[:, i] = series(i, [alg.T(0)] * n, True)
        if dense:
            Q = sym["state_cov"]
        else:
            Q = ssm.zeros(k, k)
            for i in range(k):
                Q[i, i] = alg.ipow(pick("sigma_state", i), 2)
        H = ssm.zeros(k, k)
        if me:
            for i in range(k):
                H[i, i] = alg.ipow(pick("sigma_obs", i), 2)
        out = [imp, fr, Q, H, ssm.zeros(mod.k_states + k)]
        return out + ([ssm.zeros(mod.k_states, mod.k_states)] if stat else [sym["P0"]])

    def dampened():
        """the transition with level, undamped trend and seasonal memory dampened, per series (shock, level, trend, season)"""
        T, each = mt["T"], mod.k_states // k
        for i in range(k):
            o = i * each
            T = pt.set_subtensor(T[o + 1, o + 1], stat)
            if order[1] == "A":
                T = pt.set_subtensor(T[o + 2, o + 2], stat)
            if seas:
                T = pt.set_subtensor(T[o + 2 + trend, o + each - 1], stat)
        return T

    free = ssm.free_response(mt, n + 1)[1:]
    outs = [ssm.shock_response(mt, n), free, mt["Q"], mt["H"], pt.concatenate([mt["c"], mt["d"]])]
    labels = ["shock_response", "free_response", "innovation_covariance", "measurement_covariance", "intercepts"]
    if not stat:
        outs.append(mt["P0"])
        labels.append("initial_cov")
    if stat:
        outs.append(ssm.stationary(mt, T=dampened()))
        labels.append("stationary_cov")
    S.graph("", outs, {params[x]: sym[x] for x in params}, spec, labels=labels)


def cases(tier):
    out = []
    orders = [(("A", "N", "N"), None), (("A", "A", "N"), None), (("A", "Ad", "N"), None), (("A", "N", "A"), 4), (("A", "A", "A"), 3), (("A", "Ad", "A"), 4), (("A", "Ad", "A"), 2)]
    if tier == "thorough":
        orders += [(("A", "Ad", "A"), 7), (("A", "N", "A"), 6), (("A", "A", "A"), 5)]
    for j, (o, m_) in enumerate(orders):
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            for tr in (False, True):
                dense = k > 1 and (j + tr) % 2 == 0
                me = (j + k) % 2 == 0

                def run(S, o=o, m_=m_, k=k, tr=tr, dense=dense, me=me):
                    S.bound(f"order {o}, period {m_}, {k} series, transformed={tr}, dense={dense}; all parameters symbolic")
                    ets(S, o, m_, k, tr, dense, me)
                out.append((f"{''.join(o)}{m_ or ''}-k{k}-{'transformed' if tr else 'star'}", run))
    for j, (o, m_, k) in enumerate([(("A", "N", "N"), None, 1), (("A", "A", "N"), None, 1), (("A", "Ad", "N"), None, 1), (("A", "N", "A"), 3, 1), (("A", "A", "A"), 2, 1), (("A", "Ad", "A"), 2, 1), (("A", "A", "N"), None, 2), (("A", "N", "A"), 2, 2)]):
        def run(S, o=o, m_=m_, k=k, j=j):
            S.bound(f"order {o}, period {m_}, {k} series, stationary initialization; all parameters symbolic")
            ets(S, o, m_, k, j % 2 == 0, k > 1, False, stat=0.75 if j % 2 else 0.5)
        out.append((f"stationary-{''.join(o)}{m_ or ''}-k{k}", run))
    return out
