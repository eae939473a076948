TITLE = "VARMA models represent the vector ARMA difference equation"
ASSUMPTIONS = [
    "real arithmetic; responses compared for lags 0 .. 2*(blocks)+1 of the block companion form",
    "stationary initial moments are those that solve the stationarity equations",
    "the observation law follows from these matrices through P01-P03",
]
import numpy as np
import pytensor.tensor as pt

from checks import ssm
from vlib import alg, ptsym


def varma(S, k, order, me, stat):
    from pymc_extras.statespace import BayesianVARMAX

    p, q = order
    with S.encoding():
        mod = BayesianVARMAX(order=order, k_endog=k, measurement_error=me, stationary_initialization=stat, verbose=False)
        params, m, _ = ssm.build(mod)
    n = 2 * (max(p, 1) + q) + 2
    sym = ssm.symbols(mod)

    def spec():
        A = [sym["ar_params"][:, i, :] for i in range(p)]
        M = [sym["ma_params"][:, i, :] for i in range(q)]
        psi = []
        for j in range(n):
            x = ptsym.to_obj(np.eye(k)) if j == 0 else (M[j - 1] if j <= q else ssm.zeros(k, k))
            for i in range(1, min(j, p) + 1):
                x = x + ptsym.matmul(A[i - 1], psi[j - i])
            psi.append(x)
        H = ssm.zeros(k, k)
        if me:
            for i in range(k):
                H[i, i] = sym["sigma_obs"][i]  # this model parametrises measurement noise by its variances
        return [np.stack(psi), sym["state_cov"], H, ssm.zeros(mod.k_states + k)] + ([ssm.zeros(mod.k_states), ssm.zeros(mod.k_states, mod.k_states)] if stat else [])

    outs = [ssm.shock_response(m, n), m["Q"], m["H"], pt.concatenate([m["c"], m["d"]])]
    labels = ["shock_response", "innovation_covariance", "measurement_covariance", "intercepts"]
    if stat:
        outs += [m["x0"], ssm.stationary(m)]
        labels += ["stationary_mean", "stationary_cov"]
    S.graph("", outs, {params[x]: sym[x] for x in params}, spec, labels=labels)
    if not stat:
        # free evolution obeys the vector AR recursion once the moving-average memory is exhausted
        free = ssm.free_response(m, n)
        k0 = max(p, 1) + q
        res = []
        for t in range(k0, n):
            x = free[t]
            for i in range(p):
                x = x - params["ar_params"][:, i, :] @ free[t - 1 - i]
            res.append(x)
        S.graph("init", [m["x0"], m["P0"], pt.stack(res), free[0]], {params[x]: sym[x] for x in params},
                lambda: [sym["x0"], sym["P0"], ssm.zeros(n - k0, k), sym["x0"][:k]],
                labels=["initial_mean", "initial_cov", "free_response", "observed_states"])


def cases(tier):
    out = []
    todo = [(1, (1, 0)), (1, (2, 1)), (1, (0, 1)), (1, (1, 2)), (2, (1, 0)), (2, (2, 0)), (2, (0, 1)), (2, (1, 1)), (2, (1, 2)), (2, (0, 2)), (2, (3, 0)), (3, (1, 1)), (3, (2, 0)), (2, (2, 1))]
    if tier == "thorough":
        todo += [(3, (2, 1)), (2, (3, 2)), (2, (0, 3)), (2, (2, 3))]
    for i, (k, o) in enumerate(todo):
        def run(S, k=k, o=o, i=i):
            S.bound(f"{k} series, order {o}, all parameters symbolic")
            varma(S, k, o, i % 2 == 0 or k == 2, stat=False)
        out.append((f"k{k}-{o[0]}{o[1]}", run))
    for k, o in [(1, (1, 0)), (1, (2, 0)), (1, (1, 1)), (1, (0, 2)), (2, (1, 0)), (2, (0, 1))]:
        def run(S, k=k, o=o):
            S.bound(f"{k} series, order {o}, stationary initialization, all parameters symbolic")
            varma(S, k, o, True, stat=True)
        out.append((f"stationary-k{k}-{o[0]}{o[1]}", run))
    return out
