TITLE = "A prior made from a posterior is the Gaussian with its sample moments"
ASSUMPTIONS = ["real arithmetic; the Cholesky factorization is a stand-in that returns an arbitrary triangular matrix for the covariance it is given",
               "oracle: mean and covariance (divisor n - 1) of the draws, transformed by PyMC's own transform, over chains and draws together"]
import contextlib
import itertools

import arviz as az
import numpy as np
import pymc as pm
import pytensor
import scipy.linalg
import xarray as xr
from pymc.distributions import transforms

from checks.fits import quiet
from vlib import alg, ptsym, smt
from vlib.alg import T

COORDS = {"t": ["a", "b"], "k": [0, 1, 2], "u": [5, 6]}


@contextlib.contextmanager
def object_tensors():
    """object arrays of terms become inputs of the graph that stand for them"""
    from pytensor.tensor import _as_tensor_variable

    plain = _as_tensor_variable.dispatch(np.ndarray)
    table = {}

    def convert(x, name, ndim, **k):
        x = np.asarray(x)
        if x.dtype != object:
            return plain(x, name, ndim, **k)
        if all(not isinstance(v, alg.Term) or v.is_const() for v in x.ravel()):
            return plain(np.array([float(alg.NumEval({})(T(v))) for v in x.ravel()]).reshape(x.shape), name, ndim, **k)
        v = pytensor.tensor.tensor("held", dtype="float64", shape=x.shape)
        table[v] = np.asarray(x)
        return v
    ev = pytensor.graph.basic.Variable.eval

    def evaluate(self, *a, **k):
        if any(v in table for v in pytensor.graph.basic.graph_inputs([self])):
            return np.asarray(ptsym.evaluate([self], table)[0], dtype=object)
        return ev(self, *a, **k)
    _as_tensor_variable.register(np.ndarray, convert)
    pytensor.graph.basic.Variable.eval = evaluate
    try:
        yield table
    finally:
        _as_tensor_variable.register(np.ndarray, plain)
        pytensor.graph.basic.Variable.eval = ev


@contextlib.contextmanager
def factorization():
    log = []
    keep = np.linalg.cholesky, scipy.linalg.cholesky

    def make(real):
        def chol(a, *args, **k):
            a = np.asarray(a)
            if a.dtype != object:
                return real(a, *args, **k)
            low = np.zeros(a.shape, dtype=object)
            for i in range(len(a)):
                for j in range(i + 1):
                    low[i, j] = alg.var(f"l{i}_{j}")
            log.append(a)
            return low.T if real is keep[1] and not k.get("lower", args[:1] == (True,)) else low
        return chol
    npcov = np.cov

    def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
        m = np.asarray(m)
        if m.dtype != object:
            return npcov(m, y, rowvar, bias, ddof, **k)
        assert y is None and not any(v is not None for v in k.values()), "unsupported arguments of np.cov"
        m = np.atleast_2d(m)
        if not rowvar and m.shape[0] != 1:
            m = m.T
        n = m.shape[1]
        div = n - (ddof if ddof is not None else 0 if bias else 1)
        mean = [sum(map(T, r), T(0)) / n for r in m]
        out = np.empty((len(m),) * 2, dtype=object)
        for i, j in np.ndindex(*out.shape):
            out[i, j] = sum(((a - mean[i]) * (b - mean[j]) for a, b in zip(m[i], m[j])), T(0)) / div
        return out if len(m) > 1 else out[0, 0]
    np.linalg.cholesky, scipy.linalg.cholesky, np.cov = make(keep[0]), make(keep[1]), cov
    try:
        yield log
    finally:
        np.linalg.cholesky, scipy.linalg.cholesky = keep
        np.cov = npcov


# variable -> (dims in the posterior, positive?, argument of prior_from_idata or None for var_names,
#              name in the new model, transform, dims in the new model)
def programs():
    lg, sx = transforms.log, transforms.simplex
    lo = transforms.logodds
    A = {
        "scalar": {"a": ((), None, None, "a", None, None)},
        "two-scalars": {"a": ((), None, None, "a", None, None), "b": ((), None, None, "b", None, None)},
        "vector": {"b": (("t",), None, ("t",), "b", None, ("t",))},
        "vector-no-dims": {"b": (("t",), None, None, "b", None, None)},
        "renamed": {"e": ((), None, "new", "new", None, None), "a": ((), None, None, "a", None, None)},
        "log": {"c": ((), "pos", lg, "c", lg, None), "a": ((), None, None, "a", None, None)},
        "matrix": {"m": (("t", "k"), None, ("t", "k"), "m", None, ("t", "k"))},
        "log-vector-renamed": {"s": (("t",), "pos", dict(name="scale", transform=lg, dims="t"), "scale", lg, ("t",)), "a": ((), None, None, "a", None, None)},
        "simplex": {"f": (("k",), "simplex", dict(name="new_f", transform=sx, dims="k"), "new_f", sx, ("k",))},
        "logodds": {"p": ((), "pos", dict(transform=lo), "p", lo, None), "b": (("t",), None, dict(dims=("t",)), "b", None, ("t",))},
        "matrix-first": {"m": (("t", "u"), None, ("t", "u"), "m", None, ("t", "u")), "a": ((), None, None, "a", None, None), "f": (("k",), "simplex", dict(transform=sx), "f", sx, None)},
        "mixed": {"a": ((), None, None, "a", None, None), "b": (("t",), None, ("t",), "b", None, ("t",)), "c": ((), "pos", lg, "c", lg, None)},
    }
    return A


def draws_of(progs, chains, draws, value):
    out = {}
    for v, (dims, pos, *_) in progs.items():
        shape = tuple(len(COORDS[d]) for d in dims)
        a = np.empty((chains, draws, *shape), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = value(f"{v}_" + "_".join(map(str, i)), pos)
        out[v] = a
    return out


def posterior(arrays, progs, layout):
    ds = {}
    for v, a in arrays.items():
        dims = ("chain", "draw", *progs[v][0])
        da = xr.DataArray(a, dims=dims, coords={d: COORDS[d] if d in COORDS else np.arange(n) for d, n in zip(dims, a.shape)})
        if layout == "draws-last" and v != "a":
            da = da.transpose(*progs[v][0], "draw", "chain")
        ds[v] = da
    return az.InferenceData(posterior=xr.Dataset(ds))


def call(idata, progs):
    from pymc_extras.utils.prior import prior_from_idata

    kw = {v: p[2] for v, p in progs.items() if p[2] is not None}
    names = [v for v, p in progs.items() if p[2] is None]
    with pm.Model(coords=COORDS) as m:
        given = prior_from_idata(idata, "base", var_names=names, **kw)
    return m, given


def run(S, name, chains, draws, layout):
    progs = programs()[name]
    S.bound(f"{name}: {chains} chains of {draws} arbitrary draws, {layout}; every value of the standard normals")
    simplex = any(p[1] == "simplex" for p in progs.values())

    def body():
        def value(n, pos):
            return alg.exp(alg.var(n)) if pos else alg.var(n)
        arrays = draws_of(progs, chains, draws, value)
        with quiet(), object_tensors() as table, factorization() as log:
            idata = posterior(arrays, progs, layout)
            with S.encoding():
                m, given = call(idata, progs)
            [base] = m.free_RVs
            n = base.type.shape[0]
            z = np.array([alg.var(f"z{i}") for i in range(n)], dtype=object)
            names = [p[3] for p in progs.values()]
            outs = [m[x] for x in names]
            got = ptsym.evaluate(outs, {base: z} | table)
            # the wanted flat draws, by variable, in this order
            flat = {}
            for v, p in progs.items():
                a = arrays[v]
                if p[4] is not None:
                    with object_tensors() as t2:
                        a = np.asarray(p[4].forward(a).eval(), dtype=object)
                flat[v] = a.reshape(chains * draws, *a.shape[2:])
        return m, given, base, z, names, got, flat, log, simplex

    n = 0
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        n += 1
        if kind == "raise":
            raise res
        obligations(S, progs, f"@p{n}" if n > 1 else "", path, chains, draws, layout, *res)


def obligations(S, progs, tag, path, chains, draws, layout, m, given, base, z, names, got, flat, log, simplex):
    N = chains * draws
    S.concrete(f"names{tag}", set(m.named_vars) == {"base", *names} and set(given) == set(names) and all(given[x] is m[x] for x in names), f"variables {sorted(m.named_vars)}, returned {sorted(given)}")
    S.concrete(f"normals{tag}", type(base.owner.op).__name__ == "NormalRV", f"{base.owner.op}")
    mu, sigma = (np.asarray(v, dtype=object) for v in ptsym.evaluate(base.owner.op.dist_params(base.owner), {}))
    S.concrete(f"standard{tag}", all(T(x).is_zero() for x in mu.ravel()) and all((T(x) - 1).is_zero() for x in sigma.ravel()), "the normals are not standard")
    for (v, p), g in zip(progs.items(), got):
        want = tuple(len(COORDS[d]) for d in p[0])
        S.concrete(f"shape/{p[3]}{tag}", np.shape(g) == want, f"{p[3]} has shape {np.shape(g)}, required {want}")
        S.concrete(f"dims/{p[3]}{tag}", m.named_vars_to_dims.get(p[3]) == p[5], f"{p[3]} has dims {m.named_vars_to_dims.get(p[3])}, required {p[5]}")
    sizes = {v: flat[v].size // N for v in progs}
    cols = [(v, k) for v in progs for k in range(sizes[v])]
    S.concrete(f"size{tag}", len(cols) == len(z), f"{len(z)} normals for {len(cols)} numbers")
    S.concrete(f"factorizations{tag}", len(log) == 1 and log[0].shape == (len(cols),) * 2, f"factorized {[a.shape for a in log]}")
    if len(log) != 1 or len(cols) != len(z) or log[0].shape != (len(z),) * 2:
        return
    X = {(v, k): [T(flat[v].reshape(N, -1)[d, k]) for d in range(N)] for v, k in cols}
    mean = {c: sum(x, T(0)) / N for c, x in X.items()}
    # the transformed value of each result must be mean + row @ z; rows in some order of the columns
    lower = np.zeros((len(z), len(z)), dtype=object)
    for i in range(len(z)):
        for j in range(i + 1):
            lower[i, j] = alg.var(f"l{i}_{j}")
    real = Real(progs, chains, draws, layout, cols)
    ranges = {f"{v}_{c}_{d}" + "".join(f"_{i}" for i in idx): (-1.0, 1.0) for v, p in progs.items() for c in range(chains) for d in range(draws) for idx in np.ndindex(*(len(COORDS[x]) for x in p[0]))}
    def cov_of(p, q):
        return sum(((x - mean[p]) * (y - mean[q]) for x, y in zip(X[p], X[q])), T(0)) / (N - 1)

    # the variables may be stacked in any order
    for perm in itertools.permutations(progs):
        order = [c for v in perm for c in cols if c[0] == v]
        if all((T(log[0][r, r]) - cov_of(c, c)).is_zero() for r, c in enumerate(order)):
            break
    else:
        order = cols
    for r, (v, k) in enumerate(order):
        for s, (w, l) in enumerate(order[: r + 1]):
            cov = cov_of((v, k), (w, l))
            for i, j in {(r, s), (s, r)}:
                S.equal(f"covariance/{v}{k},{w}{l}/{i},{j}{tag}", T(log[0][i, j]), cov, path, lambda s, r=(v, k), q=(w, l): real.covariance(s, r, q), ranges)
    for (v, p), g in zip(progs.items(), got):
        r, size = order.index((v, 0)), sizes[v]
        inner = [mean[v, k] + sum((lower[r + k, j] * z[j] for j in range(len(z))), T(0)) for k in range(size)]
        inner = np.array(inner, dtype=object).reshape(flat[v].shape[1:])
        if p[4] is not None:
            with object_tensors():
                want = np.asarray(p[4].backward(inner).eval(), dtype=object)
        else:
            want = inner
        if np.shape(g) == want.shape:
            for i in np.ndindex(*want.shape):
                S.equal(f"value/{p[3]}{list(i) if i else ''}{tag}", T(np.asarray(g, dtype=object)[i]), T(want[i]), path, lambda s, v=v, i=i: real.value(s, v, i), ranges)


class Real:
    """the same call on numbers; moments of the transformed values from the affine map"""

    def __init__(self, progs, chains, draws, layout, cols):
        # enough draws for a covariance that can be factorized
        self.progs, self.chains, self.draws, self.layout, self.cols = progs, max(chains, 3), max(draws, 9), layout, cols

    def setup(self, s):
        def value(n, pos):
            x = s.get(n, float(np.sin(sum((i + 3) * ord(c) for i, c in enumerate(n)) ** 2 * 0.7)))
            return np.exp(x) if pos else x
        arrays = {v: a.astype(float) for v, a in draws_of(self.progs, self.chains, self.draws, value).items()}
        for v, p in self.progs.items():
            if p[1] == "simplex":
                arrays[v] = arrays[v] / arrays[v].sum(-1, keepdims=True)
        with quiet():
            m, given = call(posterior(arrays, self.progs, self.layout), self.progs)
            [base] = m.free_RVs
            f = pytensor.function([base], [m[p[3]] if p[4] is None else p[4].forward(m[p[3]]) for p in self.progs.values()])
            flat = [arrays[v] if p[4] is None else p[4].forward(arrays[v]).eval() for v, p in self.progs.items()]
        n = base.type.shape[0]
        X = np.concatenate([a.reshape(self.chains * self.draws, -1) for a in flat], axis=1)
        at = np.concatenate([np.ravel(o) for o in f(np.zeros(n))])
        A = np.stack([np.concatenate([np.ravel(o) for o in f(np.eye(n)[i])]) - at for i in range(n)], axis=1)
        return X, at, A

    def covariance(self, s, r, q):
        try:
            X, at, A = self.setup(s)
        except np.linalg.LinAlgError:
            return False, "singular draws"
        i, j = self.cols.index(r), self.cols.index(q)
        got, want = (A @ A.T)[i, j], np.atleast_2d(np.cov(X, rowvar=False))[i, j]
        return abs(got - want) > 1e-6 * (1 + abs(want)), f"the prior covariance of {r} and {q} is {got:.8g}, the draws' is {want:.8g}"

    def value(self, s, v, i):
        try:
            X, at, A = self.setup(s)
        except np.linalg.LinAlgError:
            return False, "singular draws"
        cov = np.atleast_2d(np.cov(X, rowvar=False))
        bad = np.abs(at - X.mean(0)) > 1e-6 * (1 + np.abs(at))
        if bad.any():
            k = int(np.argmax(bad))
            return True, f"the prior mean of {self.cols[k]} is {at[k]:.8g}, the draws' is {X.mean(0)[k]:.8g}"
        off = np.abs(A @ A.T - cov)
        k = np.unravel_index(np.argmax(off), off.shape)
        return off[k] > 1e-6 * (1 + abs(cov[k])), f"the prior covariance of {self.cols[k[0]]} and {self.cols[k[1]]} is {(A @ A.T)[k]:.8g}, the draws' is {cov[k]:.8g}"


def cases(tier):
    out = []
    for name in programs():
        out.append((f"{name}-1x3", lambda S, name=name: run(S, name, 1, 3, "draws-first")))
        if name in ("two-scalars", "matrix", "log", "simplex", "mixed"):
            out.append((f"{name}-3x3", lambda S, name=name: run(S, name, 3, 3, "draws-last")))
    return out
