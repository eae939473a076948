"""Shared by the Kalman-filter checks: build the real filter graph and the exact reference."""
from __future__ import annotations

from fractions import Fraction as Fr

import numpy as np
import pytensor.tensor as pt

from vlib import alg, gauss, ptsym
from vlib.alg import T

FILL = -9999.0
NAMES = ["y", "a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]
OUT = ["filtered_states", "predicted_states", "observed_states", "filtered_covariances",
       "predicted_covariances", "observed_covariances", "loglike_obs"]

# dense concrete matrices (exact dyadic rationals), used for the inputs a slice keeps fixed
DENSE = {
    1: {"a0": [0.5], "P0": [[1.25]], "c": [0.25], "d": [-0.5], "T": [[0.75]], "Z": [[1.5]], "R": [[0.5]],
        "H": [[0.5]], "Q": [[2.0]]},
    2: {"a0": [0.5, -1.0], "P0": [[2.0, 0.5], [0.5, 1.0]], "c": [0.25, -0.5], "d": [-0.5, 0.75],
        "T": [[0.75, 0.25], [-0.5, 0.5]], "Z": [[1.0, 0.5], [-0.25, 2.0]], "R": [[1.0, 0.5], [0.25, -1.0]],
        "H": [[0.5, 0.125], [0.125, 0.75]], "Q": [[1.0, -0.25], [-0.25, 0.5]]},
    3: {"a0": [0.5, -1.0, 0.25], "P0": [[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 1.5]],
        "c": [0.25, -0.5, 1.0], "d": [-0.5, 0.75, 0.25],
        "T": [[0.75, 0.25, 0.0], [-0.5, 0.5, 0.25], [0.125, 0.0, -0.5]],
        "Z": [[1.0, 0.5, 0.25], [-0.25, 2.0, 0.0], [0.5, 0.25, -1.0]],
        "R": [[1.0, 0.5, 0.0], [0.25, -1.0, 0.5], [0.0, 0.25, 1.0]],
        "H": [[0.5, 0.125, 0.0], [0.125, 0.75, 0.25], [0.0, 0.25, 1.0]],
        "Q": [[1.0, -0.25, 0.0], [-0.25, 0.5, 0.125], [0.0, 0.125, 0.25]]},
}


def shapes(k, p, r):
    return {"a0": (k,), "P0": (k, k), "c": (k,), "d": (p,), "T": (k, k), "Z": (p, k), "R": (k, r), "H": (p, p), "Q": (r, r)}


def concrete(name, k, p, r, diagH=False):
    big = DENSE[max(k, p, r)][name]
    s = shapes(k, p, r)[name]
    a = np.array(big)[tuple(slice(0, i) for i in s)]
    if name == "H" and diagH:
        a = np.diag(np.diag(a))
    return a


def chol_pd(name, n, diag=False):
    """a symbolic positive definite matrix L L^T with positive diagonal of L"""
    L = ptsym.to_obj(np.zeros((n, n)))
    for i in range(n):
        for j in range(i + 1):
            if i == j:
                L[i, j] = alg.positive_var(f"{name}L{i}{j}")
            elif not diag:
                L[i, j] = alg.var(f"{name}L{i}{j}")
    return L


def make_inputs(k, p, r, n, sym, tv=(), diagH=False, y=None, sqrt=False):
    """-> ({name: object array of exact scalars}, assumptions).  `sym` names the symbolic inputs;
    names in `tv` get a leading time axis (each slice different)."""
    vals = {}
    ass = []
    sh = shapes(k, p, r)
    for name in NAMES[1:]:
        reps = []
        for t in range(n if name in tv else 1):
            tag = f"{name}{t}" if name in tv else name
            if name in sym:
                if name in ("P0", "H", "Q"):
                    m = sh[name][0]
                    dg = name == "H" and diagH
                    if sqrt or sym == "chol":
                        L = chol_pd(tag, m, dg)
                        reps.append(gauss.quad(L, gauss.eye(m)))
                    else:
                        M = alg.array(tag, (m, m), sym=True)
                        if dg:
                            M = ptsym.to_obj(np.diag([0.0] * m))
                        for i in range(m):
                            M[i, i] = alg.positive_var(f"{tag}_{i}_{i}")
                        for q in range(2, m + 1):
                            ass.append(alg.gt(ptsym.det(M[:q, :q]), 0))
                        reps.append(M)
                else:
                    reps.append(alg.array(tag, sh[name]))
            else:
                base = concrete(name, k, p, r, diagH)
                if name in tv:  # a different value at each time
                    base = base * (1 + t) if name in ("H", "Q") else base + 0.25 * t * (1 if base.ndim < 2 else np.ones(base.shape))
                reps.append(ptsym.to_obj(base))
        vals[name] = np.stack(reps) if name in tv else reps[0]
    if y is None:
        vals["y"] = alg.array("y", (n, p))
    else:
        vals["y"] = ptsym.to_obj(y) if not isinstance(y, np.ndarray) or y.dtype != object else y
    return vals, [a for a in ass if not isinstance(a, bool)]


def pt_inputs(vals):
    return {name: pt.tensor(name="in_" + name, shape=vals[name].shape, dtype="float64") for name in NAMES}


def filters():
    from pymc_extras.statespace.filters import SquareRootFilter, StandardFilter, UnivariateFilter

    return {"standard": StandardFilter, "sqrt": SquareRootFilter, "univariate": UnivariateFilter}


def lower_chol_of(vals, name="P0"):
    return ptsym.cholesky(vals[name])


def observed_fn(yv, fill=FILL):
    """which rows are observed at t (forks the exploration on y == fill)"""

    def f(t):
        out = []
        for i, e in enumerate(yv[t]):
            if isinstance(e, alg.Special):
                continue
            q = alg.eq(e, fill)
            if not bool(q):
                out.append(i)
        return out

    return f


def run_filter(S, name, fkind, k, p, r, n, sym, outputs=OUT, tv=(), y=None, jitter=0.0, mask_y=True,
               fill=None, ranges=None, timeout_ms=30000, L0=False, extra_ass=(), qr_signs=None):
    """one symbolic run of the real filter against exact conditioning"""
    if qr_signs is not None:
        ptsym.QR_SIGNS[:] = qr_signs
    diagH = fkind == "univariate"
    vals, ass = make_inputs(k, p, r, n, sym, tv, diagH, y, sqrt=fkind == "sqrt")
    if L0:
        vals["P0"] = gauss.quad(chol_pd("P0", k), gauss.eye(k))
    if mask_y:
        ass += [alg.bnot(alg.eq(e, FILL if fill is None else fill)) for e in vals["y"].flat
                if isinstance(e, alg.Term) and not e.is_const()]
    ass += list(extra_ass)
    pv = pt_inputs(vals)
    F = filters()[fkind]
    with S.encoding():
        kw = {} if fill is None else {"missing_fill_value": fill}
        outs = F().build_graph(*[pv[m] for m in ["y", "a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]],
                               mode="FAST_COMPILE", cov_jitter=jitter, **kw)
    outs = dict(zip(OUT, outs))
    givens = {pv[m]: vals[m] for m in NAMES}
    if fkind == "sqrt":
        givens[pv["P0"]] = lower_chol_of(vals)

    def spec():
        ref = gauss.filt(*[vals[m] for m in NAMES], observed_fn(vals["y"], FILL if fill is None else fill),
                         jitter=jitter, obs_jitter=jitter if fkind != "sqrt" else 0)
        key = {"filtered_states": "af", "predicted_states": "ap", "observed_states": "ym",
               "filtered_covariances": "Pf", "predicted_covariances": "Pp", "observed_covariances": "F",
               "loglike_obs": "ll"}
        return [ref[key[o]] for o in outputs]

    S.graph(name, [outs[o] for o in outputs], givens, spec, ass, ranges=ranges, labels=list(outputs), timeout_ms=timeout_ms,
            explorer=None if mask_y else {"fork_all": True})
