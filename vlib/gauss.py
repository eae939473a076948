"""Reference oracles: linear-Gaussian state-space inference by textbook Gaussian conditioning,
over exact symbolic scalars.  Written from the definition (drop the unobserved rows, condition)."""
from __future__ import annotations

import math

from fractions import Fraction

import numpy as np

from . import alg
from .alg import T
from .ptsym import det, dot, inv, to_obj

LOG2PI = math.log(2 * math.pi)


def eye(n, s=1):
    return to_obj(np.eye(n) * s)


def msum(*xs):
    out = to_obj(xs[0])
    for x in xs[1:]:
        x = to_obj(x)
        r = np.empty(out.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            r[i] = T(out[i]) + T(x[i])
        out = r
    return out


def mneg(x):
    x = to_obj(x)
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        r[i] = -T(x[i])
    return r


def quad(A, B):
    return dot(dot(A, B), A.T)


def condition(a, P, y, d, Z, H, obs):
    """N(a,P) conditioned on the observed rows `obs` of y = Z x + d + eps, eps ~ N(0,H)
    -> (a_f, P_f, log density of the observed rows)"""
    if not obs:
        return a, P, T(0)
    Zo = Z[obs]
    Ho = H[np.ix_(obs, obs)]
    v = msum(y[obs], mneg(d[obs]), mneg(dot(Zo, a)))
    F = msum(quad(Zo, P), Ho)
    Fi = inv(F)
    PZ = dot(P, Zo.T)
    K = dot(PZ, Fi)
    af = msum(a, dot(K, v))
    Pf = msum(P, mneg(dot(K, PZ.T)))
    ll = -(T(Fraction(LOG2PI)) * len(obs) + alg.log(det(F)) + dot(dot(v, Fi), v)[()]) / 2
    return af, Pf, ll


def predict(a, P, c, Tm, R, Q):
    return msum(dot(Tm, a), c), msum(quad(Tm, P), quad(R, Q))


def at(x, t, base_ndim):
    return x[t] if x.ndim > base_ndim else x


def filt(y, a0, P0, c, d, Tm, Z, R, H, Q, observed, jitter=0, obs_jitter=0):
    """-> dict of lists: af, Pf, ap, Pp, ym, F, ll"""
    n = len(y)
    a, P = a0, P0
    out = {k: [] for k in ("af", "Pf", "ap", "Pp", "ym", "F", "ll")}
    for t in range(n):
        ct, dt = at(c, t, 1), at(d, t, 1)
        Tt, Zt, Rt, Ht, Qt = (at(m, t, 2) for m in (Tm, Z, R, H, Q))
        if obs_jitter:
            Ht = msum(Ht, eye(len(Ht), obs_jitter))
        out["ap"].append(a)
        out["Pp"].append(P)
        out["ym"].append(msum(dot(Zt, a), dt))
        out["F"].append(msum(quad(Zt, P), Ht))
        a, P, ll = condition(a, P, y[t], dt, Zt, Ht, observed(t))
        if jitter:
            P = msum(P, eye(len(P), jitter))
        out["af"].append(a)
        out["Pf"].append(P)
        out["ll"].append(ll)
        a, P = predict(a, P, ct, Tt, Rt, Qt)
    return {k: np.stack([np.asarray(x, dtype=object) for x in v]) for k, v in out.items()}


def joint(n, a0, P0, c, d, Tm, Z, R, H, Q):
    """mean and covariance of the stacked vector (x_0..x_{n-1}, y_0..y_{n-1}) straight from the
    definition of the process (no recursion on covariances)"""
    k, p = len(a0), len(at(Z, 0, 2))
    r = at(R, 0, 2).shape[1]
    # noise vector: (x0 - a0), eta_0.., eps_0..
    blocks = [P0] + [at(Q, t, 2) for t in range(n - 1)] + [at(H, t, 2) for t in range(n)]
    sizes = [len(b) for b in blocks]
    off = np.cumsum([0, *sizes])
    N = off[-1]
    S = to_obj(np.zeros((N, N)))
    for b, o in zip(blocks, off):
        S[o : o + len(b), o : o + len(b)] = b
    m = a0
    L = to_obj(np.zeros((k, N)))
    L[:, :k] = eye(k)
    xm, xL, ym, yL = [], [], [], []
    for t in range(n):
        xm.append(m)
        xL.append(L)
        Zt = at(Z, t, 2)
        ym.append(msum(dot(Zt, m), at(d, t, 1)))
        Ly = dot(Zt, L)
        o = off[n + t]
        Ly = Ly.copy()
        for i in range(p):
            Ly[i, o + i] = T(Ly[i, o + i]) + 1
        yL.append(Ly)
        if t < n - 1:
            Tt = at(Tm, t, 2)
            m = msum(dot(Tt, m), at(c, t, 1))
            L = dot(Tt, L)
            o = off[1 + t]
            L = L.copy()
            L[:, o : o + r] = msum(L[:, o : o + r], at(R, t, 2))
    M = np.concatenate(xm + ym)
    LL = np.concatenate(xL + yL)
    return M, quad(LL, S)
