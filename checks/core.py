"""Shared by the checks of the statespace core: a small user-defined model with every matrix in use, its matrices
written out independently, and the capture of what the samplers would draw from."""
from __future__ import annotations

import contextlib
import warnings

from fractions import Fraction as Fr

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from vlib import alg, gauss, ptsym
from vlib.alg import T
from vlib.gauss import dot, mneg, msum, quad

K = 2  # states


def make_model(p=1, exog=None, filter_type="standard", tv=False, coords=True):
    """2 states, p series, 1 shock (2 with p = 2), intercepts, measurement error; with exog (a data name) the first
    state's loading is the exogenous series"""
    from pymc_extras.statespace.core.statespace import PyMCStateSpace
    from pymc_extras.statespace.utils.constants import (
        ALL_STATE_AUX_DIM, ALL_STATE_DIM, OBS_STATE_AUX_DIM, OBS_STATE_DIM, SHOCK_AUX_DIM, SHOCK_DIM,
    )

    class Model(PyMCStateSpace):
        def __init__(self):
            super().__init__(k_endog=p, k_states=K, k_posdef=p, filter_type=filter_type, verbose=False, measurement_error=True)
            if exog:
                self._needs_exog_data = True
                self._exog_names = list(exog)

        param_names = property(lambda self: ["init", "init_cov", "drift", "level", "rho", "sigma_obs", "sigma_state"])
        state_names = property(lambda self: ["s0", "s1"])
        observed_states = property(lambda self: [f"obs{i}" for i in range(p)])
        shock_names = property(lambda self: [f"shock{i}" for i in range(p)])
        data_names = property(lambda self: list(exog or []))
        data_info = property(lambda self: {n: {"shape": (None, p), "dims": ("time", f"cols_{n}")} for n in exog or []})
        param_info = property(lambda self: {n: {"shape": s} for n, s in shapes(p).items()})

        @property
        def coords(self):
            base = {ALL_STATE_DIM: self.state_names, ALL_STATE_AUX_DIM: self.state_names, OBS_STATE_DIM: self.observed_states,
                    OBS_STATE_AUX_DIM: self.observed_states, SHOCK_DIM: self.shock_names, SHOCK_AUX_DIM: self.shock_names}
            return base | {f"cols_{n}": [f"{n}{i}" for i in range(p)] for n in exog or []} if coords else {}

        @property
        def param_dims(self):
            return {"init": (ALL_STATE_DIM,), "init_cov": (ALL_STATE_DIM, ALL_STATE_AUX_DIM), "drift": (ALL_STATE_DIM,), "level": (OBS_STATE_DIM,),
                    "sigma_obs": (OBS_STATE_DIM,), "sigma_state": (SHOCK_DIM,), "rho": None} if coords else {}

        def make_symbolic_graph(self):
            v = {n: self.make_and_register_variable(n, shape=s) for n, s in shapes(p).items()}
            self.ssm["initial_state"] = v["init"]
            self.ssm["initial_state_cov"] = v["init_cov"]
            self.ssm["state_intercept"] = v["drift"]
            self.ssm["obs_intercept"] = v["level"]
            self.ssm["transition"] = pt.stack([pt.stack([v["rho"], 0.5]), pt.stack([0.25, 1.0])])
            self.ssm["selection"] = np.array(SEL[p])
            self.ssm["obs_cov"] = pt.specify_shape(pt.diag(v["sigma_obs"] ** 2), (p, p))
            self.ssm["state_cov"] = pt.specify_shape(pt.diag(v["sigma_state"] ** 2), (p, p))
            if exog:
                first = pt.specify_shape(self.make_and_register_data(exog[0], shape=(None, p)), (None, p))
                cols = [first[:, :, None], pt.ones_like(first)[:, :, None] * np.array(LOAD[p])[None, :, 1:]]
                self.ssm["design"] = pt.specify_shape(pt.concatenate(cols, axis=-1), (None, p, K))
                if len(exog) > 1:
                    second = pt.specify_shape(self.make_and_register_data(exog[1], shape=(None, p)), (None, p))
                    self.ssm["obs_intercept"] = v["level"][None] + second
            else:
                self.ssm["design"] = np.array(LOAD[p])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Model()


SEL = {1: [[1.0], [0.5]], 2: [[1.0, 0.5], [0.25, -1.0]]}
LOAD = {1: [[1.0, 0.5]], 2: [[1.0, 0.5], [-0.25, 2.0]]}
CONST = {"init": [0.5, -1.0], "init_cov": [[2.0, 0.5], [0.5, 1.0]], "drift": [0.25, -0.5], "rho": 0.75, "level": [-0.5, 0.75], "sigma_obs": [0.5, 1.5], "sigma_state": [1.25, 0.75]}
EXOG = [[0.5, -1.5], [2.0, 0.25], [-0.75, 1.25], [1.5, -2.0], [-2.25, 0.5], [0.25, 3.0], [1.75, -0.5], [3.25, 1.0]]


def shapes(p):
    return {"init": (K,), "init_cov": (K, K), "drift": (K,), "level": (p,), "rho": (), "sigma_obs": (p,), "sigma_state": (p,)}


def exog_values(name, n, p, start=0):
    e = np.array(EXOG)[start : start + n, :p]
    return e if name.endswith("a") else 0.5 * e[:, ::-1] + 1.0


def params(p, sym):
    """{name: array of scalars}: the named ones symbolic, the others fixed rationals; assumptions"""
    out, ass = {}, []
    for n, s in shapes(p).items():
        if n not in sym:
            out[n] = ptsym.to_obj(np.array(CONST[n])[tuple(slice(0, i) for i in s)])
        elif n == "init_cov":
            M = alg.array("V0", s, sym=True)
            for i in range(K):
                M[i, i] = alg.positive_var(f"V0_{i}_{i}")
            ass.append(alg.gt(ptsym.det(M), 0))
            out[n] = M
        elif n.startswith("sigma"):
            out[n] = np.array([alg.positive_var(f"{n}_{i}") for i in range(p)], dtype=object)
        else:
            out[n] = alg.array(n, s) if s else ptsym.arr0(alg.var(n))
    return out, ass


def matrices(v, p, exog=None, start=0, n=None, values=None):
    """the model's matrices written out from its definition; time-varying ones for data rows start .. start + n - 1"""
    one = lambda x: ptsym.to_obj(np.array(x))
    Tm = one([[0.0, 0.5], [0.25, 1.0]])
    Tm[0, 0] = v["rho"][()]
    H, Q = one(np.zeros((p, p))), one(np.zeros((p, p)))
    for i in range(p):
        H[i, i], Q[i, i] = T(v["sigma_obs"][i]) ** 2, T(v["sigma_state"][i]) ** 2
    d, Z = v["level"], one(LOAD[p])
    if exog:
        get = lambda name: exog_values(name, n, p, start) if values is None else values[name]
        e = one(get(exog[0]))
        n = len(e)
        Z = np.stack([Z] * n).copy()
        Z[:, :, 0] = e
        if len(exog) > 1:
            d = msum(np.stack([d] * n), one(get(exog[1])))
    return dict(a0=v["init"], P0=v["init_cov"], c=v["drift"], d=d, T=Tm, Z=Z, R=one(SEL[p]), H=H, Q=Q)


ORDER = ["a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]


def declare(mod, p, v, exog=None, n=None):
    """priors and data in the current model -> nothing; Flat priors keep every value on its own scale"""
    for name, s in shapes(p).items():
        dims = mod.param_dims.get(name)
        pm.Flat(name, dims=dims) if dims else pm.Flat(name, shape=s)
    for name in exog or []:
        pm.Data(name, exog_values(name, n, p), dims=["time", f"cols_{name}"] if mod.coords else None)


@contextlib.contextmanager
def quiet():
    import logging

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        logging.disable(logging.WARNING)
        try:
            yield
        finally:
            logging.disable(logging.NOTSET)


class Captured(Exception):
    def __init__(self, model, names, trace):
        self.model, self.names, self.trace = model, names, trace


@contextlib.contextmanager
def no_sampling():
    """pm.sample_posterior_predictive reports the model it was going to sample instead of sampling"""
    old = pm.sample_posterior_predictive

    def fake(trace, *a, var_names=None, **k):
        raise Captured(pm.modelcontext(k.get("model")), list(var_names), trace)

    pm.sample_posterior_predictive = fake
    try:
        yield
    finally:
        pm.sample_posterior_predictive = old


def capture(fn, *a, **k):
    with no_sampling():
        try:
            fn(*a, **k)
        except Captured as c:
            return c
    raise AssertionError("nothing was sampled")


class Noise:
    """every multivariate normal draw becomes its mean plus a fresh symbolic noise vector of the recorded covariance"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.covs, self.atoms = [], {}

    def __call__(self, ev, node, ins):
        if "MvNormal" not in type(node.op).__name__:
            return None
        rng, size, mu, cov = ins
        mu, cov = np.asarray(mu, dtype=object), np.asarray(cov, dtype=object)
        shape = tuple(int(s) for s in np.asarray(size)) if size is not None else ()
        k = cov.shape[-1]
        batch = np.broadcast_shapes(shape, mu.shape[:-1], cov.shape[:-2])
        mu = np.broadcast_to(mu, (*batch, k))
        cov = np.broadcast_to(cov, (*batch, k, k))
        out = np.empty((*batch, k), dtype=object)
        for b in np.ndindex(*batch):
            names = [f"e{len(self.covs)}_{i}" for i in range(k)]
            for i, nm in enumerate(names):
                x = alg.var(nm)
                (a,) = alg.t_atoms(x)
                self.atoms[a] = sum(len(c) for c in self.covs) + i
                out[(*b, i)] = T(mu[(*b, i)]) + x
            self.covs.append(cov[b])
        return [rng, out]

    def law(self, values):
        """mean vector and covariance of a flat vector of values that are affine in the noise"""
        N = sum(len(c) for c in self.covs)
        S = ptsym.to_obj(np.zeros((N, N)))
        o = 0
        for c in self.covs:
            S[o : o + len(c), o : o + len(c)] = c
            o += len(c)
        M = np.empty(len(values), dtype=object)
        L = ptsym.to_obj(np.zeros((len(values), N)))
        for i, x in enumerate(values):
            M[i], coef = linear(T(x), self.atoms)
            for j, c in coef.items():
                L[i, j] = c
        return M, quad(L, S)


class NotAffine(Exception):
    pass


class RealLaw:
    """mean and covariance of the draws of the real compiled graph: the draw inside the multivariate normal's
    rng_fn is replaced by mean + a chosen vector, which makes the outputs' affine dependence on every draw visible"""

    def __init__(self, outs, givens):
        self.outs, self.givens, self.fn = outs, givens, None

    def __call__(self, assign):
        import pytensor
        from pytensor.tensor.random.basic import MvNormalRV
        from vlib.harness import real_time

        if self.fn is None:
            with real_time():
                self.fn = pytensor.function(list(self.givens), self.outs, mode="FAST_COMPILE", on_unused_input="ignore")
        ev = alg.NumEval(assign)
        vals = []
        for v, a in self.givens.items():
            a = np.asarray(a, dtype=object)
            x = np.array([float(ev(T(e))) for e in a.flat]).reshape(a.shape)
            vals.append(x.astype(v.type.dtype))
        old, covs, unit = MvNormalRV.__dict__["rng_fn"], [], [None]

        def draw(cls, rng, mean, cov, size=None, **k):
            mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
            batch = np.broadcast_shapes(() if size is None else tuple(size), mean.shape[:-1], cov.shape[:-2])
            out = np.broadcast_to(mean, (*batch, cov.shape[-1])).copy()
            cov = np.broadcast_to(cov, (*batch, *cov.shape[-2:]))
            for b in np.ndindex(*batch):
                at = sum(len(c) for c in covs)
                covs.append(cov[b])
                if unit[0] is not None and at <= unit[0] < at + cov.shape[-1]:
                    out[b][unit[0] - at] += 1.0
            return out

        def run(j):
            covs.clear()
            unit[0] = j
            return np.concatenate([np.asarray(o, dtype=float).ravel() for o in self.fn(*vals)])

        MvNormalRV.rng_fn = classmethod(draw)
        try:
            first = self.fn(*vals)
            m = run(None)
            S = np.zeros((0, 0))
            for c in covs:
                S = np.block([[S, np.zeros((len(S), len(c)))], [np.zeros((len(c), len(S))), c]])
            L = np.stack([run(j) - m for j in range(len(S))], axis=1) if len(S) else np.zeros((len(m), 0))
        finally:
            MvNormalRV.rng_fn = old
        return m, L @ S @ L.T, np.array([i for o in first for i in np.shape(o)])


def laws(S, name, outs, givens, spec, ass, **kw):
    """joint mean and covariance of the draws `outs` equal spec() = (shapes, mean, covariance) of the stacked vector"""
    noise = Noise()

    def transform(got):
        arrs = [np.asarray(g, dtype=object) for g in got]
        m, V = noise.law(np.concatenate([a.ravel() for a in arrs]))
        return [m, V, ptsym.to_obj(np.array([i for a in arrs for i in a.shape]))]

    def want():
        shapes, m, V = spec()
        return [m, V, ptsym.to_obj(np.array([i for s in shapes for i in s]))]

    S.graph(name, outs, givens, want, ass, labels=["mean", "covariance", "shape"], rv_handler=noise, transform=transform, real=RealLaw(outs, givens),
            constants={1e-8: 0.0}, tol=1e-5, **kw)


def linear(x, atoms):
    """x = c0 + sum_j c_j e_j -> c0, {j: c_j}"""
    den = alg.Term({alg.ONE_M: 1}, dict(x.den)) if x.den else T(1)
    parts = {}
    for m, c in x.num.items():
        hits = [(a, e) for a, e in m if a in atoms]
        if len(hits) > 1 or any(e != 1 for _, e in hits):
            raise NotAffine(str(x)[:200])
        key = atoms[hits[0][0]] if hits else None
        rest = tuple((a, e) for a, e in m if a not in atoms)
        parts.setdefault(key, {})[rest] = c
    if any(a in atoms for f in x.den for a in alg.p_atoms(alg.CTX.factor_polys[f])):
        raise NotAffine("noise in a denominator")
    out = {k: alg.Term(p) * den for k, p in parts.items()}
    return out.pop(None, T(0)), out
