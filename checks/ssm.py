"""Shared by the statespace-model checks: the real model's matrices as graphs of its parameters,
and its exact response to initial states and to shocks."""
from __future__ import annotations

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from pytensor.graph.replace import graph_replace

from vlib import alg, ptsym
from vlib.harness import RealCodeError

NAMES = ["x0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]


def build(mod, data=None):
    """declare every parameter the model asks for, with the dims (or shape) it advertises, and insert
    them -> ({name: parameter variable}, {matrix name: graph}, {data name: variable})"""
    info = mod.param_info
    data = data or {}
    with pm.Model(coords=mod.coords) as m:
        for name in mod.param_names:
            dims = mod.param_dims.get(name, None)
            shape = info[name]["shape"]
            if dims is not None:
                declare(name, dims, mod)
                got = tuple(len(mod.coords[d]) for d in ((dims,) if isinstance(dims, str) else dims))
                if m[name].type.shape != got:
                    m[name].type.filter_variable(m[name])
            else:
                pm.Flat(name, shape=() if shape is None else shape)
        for name, v in data.items():
            pm.Data(name, v)
        mod._insert_random_variables()
        mod._insert_data_variables()
        mats = dict(zip(NAMES, mod.unpack_statespace()))
        params = {n: m[n] for n in mod.param_names}
        # plain inputs in place of the shared data containers, so that they can be symbolic
        dvars = {n: pt.tensor(name=n, shape=np.shape(data[n]), dtype="float64") for n in data}
        if dvars:
            new = graph_replace(list(mats.values()), {m[n]: dvars[n] for n in data}, strict=False)
            mats = dict(zip(NAMES, new))
    return params, mats, dvars


def declare(name, dims, mod):
    """a parameter with the dims the model advertises for it, whose coordinates it has to provide"""
    missing = [d for d in ((dims,) if isinstance(dims, str) else dims) if d not in mod.coords]
    if missing:
        raise RealCodeError(f"the model provides no coordinates for the dims {missing} of {name}")
    pm.Flat(name, dims=dims)


def shape_of(mod, name):
    dims = mod.param_dims.get(name, None)
    if dims is not None:
        return tuple(len(mod.coords[d]) for d in ((dims,) if isinstance(dims, str) else dims))
    s = mod.param_info[name]["shape"]
    return () if s is None else tuple(s)


def symbols(mod, skip=()):
    """one symbolic scalar per parameter element"""
    out = {}
    for name in mod.param_names:
        s = shape_of(mod, name)
        if name.startswith("sigma") and s == ():
            out[name] = arr0(alg.positive_var(name))
        elif s == ():
            out[name] = arr0(alg.var(name))
        elif name in ("P0", "state_cov"):
            out[name] = alg.array(name, s, sym=True)
        else:
            out[name] = alg.array(name, s)
    return out


def arr0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def at(x, t, core):
    return x[t] if x.ndim > core else x


def shock_response(m, n):
    """Psi_j = Z T^j R, j < n  (n, k_endog, k_posdef)"""
    S = m["R"]
    out = []
    for j in range(n):
        out.append(m["Z"] @ S)
        S = m["T"] @ S
    return pt.stack(out)


def free_response(m, n, x0=None):
    """E[y_t | x_0] with no shocks, t < n: shape (n, k_endog); time-varying matrices allowed"""
    x = m["x0"] if x0 is None else x0
    out = []
    for t in range(n):
        out.append(at(m["Z"], t, 2) @ x + at(m["d"], t, 1))
        x = at(m["T"], t, 2) @ x + at(m["c"], t, 1)
    return pt.stack(out)


# ---- exact polynomial / recursion arithmetic on object arrays ----
def pmulp(a, b):
    out = [alg.T(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return out


def lagpoly(coefs, s=1, sign=-1):
    """1 + sign * sum coefs_i L^(s i)"""
    out = [alg.T(0)] * (s * len(coefs) + 1)
    out[0] = alg.T(1)
    for i, c in enumerate(coefs):
        out[s * (i + 1)] = alg.T(c) if sign > 0 else -alg.T(c)
    return out


def impulse(ar, ma, n):
    """psi weights of ar(L) y = ma(L) e (ar[0] = 1)"""
    psi = []
    for j in range(n):
        x = ma[j] if j < len(ma) else alg.T(0)
        for i in range(1, min(j, len(ar) - 1) + 1):
            x = x - ar[i] * psi[j - i]
        psi.append(x)
    return psi


def zeros(*s):
    return ptsym.to_obj(np.zeros(s))


def stationary(m, T=None):
    """what is left of the equations of the stationary moments: P0 - T P0 T' - R Q R'"""
    T = m["T"] if T is None else T
    return m["P0"] - T @ m["P0"] @ T.T - m["R"] @ m["Q"] @ m["R"].T
