TITLE = "Smoothed moments are the exact full-sample conditional moments"
ASSUMPTIONS = [
    "real arithmetic; cov_jitter = 0 through the public arguments; predicted state covariances nonsingular (pinv is modelled by the inverse)",
    "the standard filter supplies the filtered moments in the composed cases (its exactness is P01)",
]
import numpy as np
import pytensor.tensor as pt

from checks.kf import DENSE, FILL, NAMES, filters, make_inputs, observed_fn, pt_inputs
from vlib import alg, gauss, ptsym
from vlib.gauss import dot, inv, mneg, msum, quad


def exact_smoother(vals, observed):
    """condition the joint Gaussian of (x_0..x_{n-1}, y_0..) on every observed y"""
    n, p = vals["y"].shape
    k = len(vals["a0"])
    M, C = gauss.joint(n, *[vals[m] for m in NAMES[1:]])
    idx = [n * k + t * p + i for t in range(n) for i in observed(t)]
    y = np.array([vals["y"][t, i] for t in range(n) for i in observed(t)], dtype=object)
    xs = list(range(n * k))
    if not idx:
        ms, Ps = M[xs], C[np.ix_(xs, xs)]
    else:
        S = C[np.ix_(idx, idx)]
        G = dot(C[np.ix_(xs, idx)], inv(S) if len(idx) <= 3 else ptsym.solve(S, gauss.eye(len(idx))))
        ms = msum(M[xs], dot(G, msum(y, mneg(M[idx]))))
        Ps = msum(C[np.ix_(xs, xs)], mneg(dot(G, C[np.ix_(idx, xs)])))
    return (ms.reshape(n, k), np.stack([Ps[t * k : t * k + k, t * k : t * k + k] for t in range(n)]))


def composed(S, k, p, r, n, sym, tv=(), nan=(), timeout_ms=30000):
    from pymc_extras.statespace.filters import KalmanSmoother

    y = alg.array("y", (n, p))
    for t, i in nan:
        y[t, i] = alg.NAN
    vals, ass = make_inputs(k, p, r, n, sym, tv, False, y)
    ass += [alg.bnot(alg.eq(e, FILL)) for e in vals["y"].flat if isinstance(e, alg.Term)]
    pv = pt_inputs(vals)
    with S.encoding():
        o = filters()["standard"]().build_graph(*[pv[m] for m in NAMES], mode="FAST_COMPILE", cov_jitter=0.0)
        sm = KalmanSmoother().build_graph(pv["T"], pv["R"], pv["Q"], o[0], o[3], mode="FAST_COMPILE", cov_jitter=0.0, **c_arg(pv["c"]))
    S.graph("", list(sm), {pv[m]: vals[m] for m in NAMES}, lambda: exact_smoother(vals, observed_fn(vals["y"])), ass,
            labels=["smoothed_states", "smoothed_covariances"], timeout_ms=timeout_ms)


def c_arg(c):
    return {"c": c}


def rts(S, k, r, n, sym, tv=()):
    """one backward pass from arbitrary filtered moments against the Rauch-Tung-Striebel recursion"""
    from pymc_extras.statespace.filters import KalmanSmoother

    vals, ass = make_inputs(k, k, r, n, [s for s in sym if s not in ("af", "Pf")], tv)
    af = alg.array("af", (n, k)) if "af" in sym else ptsym.to_obj(np.array(DENSE[k]["Z"] * 2)[:n])
    if "Pf" in sym:
        Pf = np.stack([alg.array(f"Pf{t}", (k, k), sym=True) for t in range(n)])
        for t in range(n):
            for i in range(k):
                Pf[t, i, i] = alg.positive_var(f"Pf{t}_{i}_{i}")
            for q in range(2, k + 1):
                ass.append(alg.gt(ptsym.det(Pf[t][:q, :q]), 0))
    else:
        Pf = np.stack([ptsym.to_obj(np.array(DENSE[k]["P0"]) * (1 + 0.5 * t)) for t in range(n)])
    pa = pt.tensor(name="fs_in", shape=(n, k), dtype="float64")
    pP = pt.tensor(name="fP_in", shape=(n, k, k), dtype="float64")
    pv = pt_inputs(vals)
    with S.encoding():
        sm = KalmanSmoother().build_graph(pv["T"], pv["R"], pv["Q"], pa, pP, mode="FAST_COMPILE", cov_jitter=0.0, **c_arg(pv["c"]))

    def spec():
        a, P = af[n - 1], Pf[n - 1]
        A, B = [a], [P]
        for t in range(n - 2, -1, -1):
            Tt, Rt, Qt = (gauss.at(vals[m], t, 2) for m in "TRQ")
            ap, Pp = gauss.predict(af[t], Pf[t], gauss.at(vals["c"], t, 1), Tt, Rt, Qt)
            G = dot(dot(Pf[t], Tt.T), inv(Pp))
            a = msum(af[t], dot(G, msum(a, mneg(ap))))
            P = msum(Pf[t], quad(G, msum(P, mneg(Pp))))
            A.append(a)
            B.append(P)
        return np.stack(A[::-1]), np.stack(B[::-1])

    givens = {pv[m]: vals[m] for m in "cTRQ"} | {pa: af, pP: Pf}
    S.graph("", list(sm), givens, spec, [a for a in ass if not isinstance(a, bool)], labels=["smoothed_states", "smoothed_covariances"])


def cases(tier):
    out = []

    def add(name, bound, fn, **kw):
        def run(S, kw=kw, bound=bound):
            S.bound(bound)
            fn(S, **kw)
        out.append((name, run))

    add("k1p1-all-n2", "filter then smoother, 1 state, 1 series, 2 steps, everything symbolic", composed, k=1, p=1, r=1, n=2, sym=("a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"))
    add("k1p1-n3", "1 state, 1 series, 3 steps; y, a0, c, d, T, P0 symbolic", composed, k=1, p=1, r=1, n=3, sym=("a0", "c", "d", "T", "P0"))
    add("k2p2-means-n3", "2 states, 2 series, 3 steps; y, a0, c, d symbolic", composed, k=2, p=2, r=2, n=3, sym=("a0", "c", "d"))
    add("k3p2-means-n2", "3 states, 2 series, 2 shocks, 2 steps; y, a0, c, d symbolic", composed, k=3, p=2, r=3, n=2, sym=("a0", "c", "d"))
    add("k2p1-P0-n2", "2 states, 1 series, 2 steps; P0 symbolic", composed, k=2, p=1, r=2, n=2, sym=("P0",))
    add("k2p2-missing-n3", "2 states, 2 series, 3 steps, missing elements", composed, k=2, p=2, r=2, n=3, sym=("a0", "c", "d"), nan=[(0, 1), (1, 0), (1, 1)])
    add("k2p2-missing-end-n3", "2 states, 2 series, 3 steps, last row missing", composed, k=2, p=2, r=2, n=3, sym=("a0", "c", "d"), nan=[(2, 0), (2, 1)])
    for tv in ("c", "T", "R", "Q"):
        add(f"tv-{tv}-n3", f"2 states, 1 series, 3 steps, time-varying {tv}; y, a0, c, d symbolic", composed, k=2, p=1, r=2, n=3, sym=("a0", "c", "d"), tv=(tv,))
    add("tv-all-n3", "2 states, 1 series, 3 steps, all transition matrices time varying", composed, k=2, p=1, r=2, n=3, sym=("a0", "c"), tv=("c", "T", "R", "Q", "Z", "H"))
    add("rts-means", "2 states, 4 steps backward from arbitrary filtered means", rts, k=2, r=2, n=4, sym=("af", "c"))
    add("rts-Pf", "2 states, 2 steps, arbitrary filtered covariances", rts, k=2, r=2, n=2, sym=("Pf", "af"))
    add("rts-T", "2 states, 2 steps, symbolic T and c", rts, k=2, r=2, n=2, sym=("T", "c", "af"))
    add("rts-RQ", "2 states, 2 steps, symbolic R, Q", rts, k=2, r=2, n=2, sym=("R", "Q"))
    add("rts-k1-n3-tv", "1 state, 3 steps, everything symbolic and time varying", rts, k=1, r=1, n=3, sym=("af", "Pf", "c", "T", "R", "Q"), tv=("c", "T", "R", "Q"))
    if tier == "thorough":
        add("k2p2-means-n5", "2 states, 2 series, 5 steps", composed, k=2, p=2, r=2, n=5, sym=("a0", "c", "d"))
        add("rts-k3", "3 states, 3 steps, arbitrary filtered means", rts, k=3, r=3, n=3, sym=("af", "c"))
        add("rts-k1-n4", "1 state, 4 steps, everything symbolic", rts, k=1, r=1, n=4, sym=("af", "Pf", "c", "T", "R", "Q"))
    return out
