"""Shared by the checks of find_MAP and the Laplace approximation: models, compiled functions that also
run symbolically, and a stand-in for the optimizer."""
import contextlib
import sys
import warnings

import numpy as np
import pymc as pm
import pytensor
from pytensor.graph.basic import Variable

from vlib import alg, ptsym
from vlib.alg import T


class Sym(np.ndarray):
    """object array of terms that NumPy code may cast to floats without losing them"""

    def astype(self, dtype, *a, **k):
        return self.copy()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if ufunc is np.absolute and method == "__call__":
            return Magnitude(self)
        plain = [np.asarray(i) if isinstance(i, Sym) else i for i in inputs]
        if "out" in kw:
            kw["out"] = tuple(np.asarray(o) if isinstance(o, Sym) else o for o in kw["out"])
        out = getattr(ufunc, method)(*plain, **kw)
        return sym(out) if is_sym(out) else out


class Magnitude:
    """the absolute values of an array; never below zero"""

    def __init__(self, a):
        self.a = np.asarray(a)

    def __lt__(self, tol):
        if np.all(np.asarray(tol) <= 0):
            return np.zeros(self.a.shape, dtype=bool)
        return np.abs(self.a) < tol

    def __getattr__(self, n):
        return getattr(np.abs(self.a), n)

    def __array__(self, dtype=None, copy=None):
        return np.abs(self.a)


def sym(a):
    return np.asarray(a, dtype=object).view(Sym)


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


class SymFunction:
    """what pytensor.function was asked to compile: run on terms when called with terms, compiled otherwise"""

    def __init__(self, make, inputs, outputs, givens=None):
        self.make, self.fn, self.givens = make, None, givens or {}
        self.inputs = [i if isinstance(i, Variable) else i.variable for i in inputs]
        self.single = not isinstance(outputs, list | tuple)
        outs = [outputs] if self.single else outputs
        self.outputs = [o if isinstance(o, Variable) else o.variable for o in outs]

    def __call__(self, *args, **kw):
        given = list(args) + [kw[i.name] for i in self.inputs[len(args):] if i.name in kw]
        if not any(is_sym(np.asarray(a)) for a in given):
            return self.real()(*args, **kw)
        assert len(given) == len(self.inputs), f"{len(given)} arguments for {len(self.inputs)} inputs"
        pairs = dict(zip(self.inputs, (np.asarray(g, dtype=object) for g in given)))
        out = [sym(o) for o in ptsym.evaluate(self.outputs, pairs)]
        return out[0] if self.single else out

    def real(self):
        if self.fn is None:
            self.fn = self.make()
        return self.fn

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real(), n)


@contextlib.contextmanager
def symbolic_functions():
    orig = pytensor.function

    def function(inputs, outputs=None, *a, **k):
        return SymFunction(lambda: orig(inputs, outputs, *a, **k), inputs, outputs, k.get("givens"))

    patched = []
    for mod in list(sys.modules.values()):
        if getattr(mod, "function", None) is orig:
            mod.function = function
            patched.append(mod)
    real = np.linalg.pinv, np.linalg.inv, np.linalg.cholesky
    np.linalg.pinv = lambda a, *x, **k: sym(inverse(np.asarray(a))) if is_sym(np.asarray(a)) else real[0](a, *x, **k)
    np.linalg.inv = lambda a, *x, **k: sym(inverse(np.asarray(a))) if is_sym(np.asarray(a)) else real[1](a, *x, **k)
    np.linalg.cholesky = lambda a, *x, **k: np.asarray(a) if is_sym(np.asarray(a)) else real[2](a, *x, **k)
    try:
        yield
    finally:
        for mod in patched:
            mod.function = orig
        np.linalg.pinv, np.linalg.inv, np.linalg.cholesky = real


def inverse(a):
    """exact inverse by elimination without pivoting (pivots assumed not zero)"""
    n = len(a)
    m = [[T(a[i, j]) for j in range(n)] + [T(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        k = next(r for r in range(c, n) if not m[r][c].is_zero())
        m[c], m[k] = m[k], m[c]
        p = m[c][c]
        m[c] = [x / p for x in m[c]]
        for r in range(n):
            if r != c and not m[r][c].is_zero():
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = m[i][n + j]
    return out


class Optimizer:
    """stands in for the optimizer: records what it is given and reports a symbolic optimum"""

    def __init__(self):
        self.calls = []

    def __call__(self, f, x0, *args, **k):
        from scipy.optimize import OptimizeResult

        names = ("method", "jac", "hess", "hessp")
        k = dict(zip(names, args)) | k
        x0 = np.asarray(x0, dtype=float)
        x = sym(np.array([alg.var(f"x{i}") for i in range(len(x0))], dtype=object))
        self.calls.append({"f": f, "x0": x0, "x": x, **k})
        return OptimizeResult(x=x, fun=0.0, success=True, message="stand-in")


@contextlib.contextmanager
def optimizer():
    import better_optimize
    import pymc_extras.inference.find_map  # noqa: F401

    opt = Optimizer()
    orig = better_optimize.minimize
    patched = []
    for mod in list(sys.modules.values()):
        for attr in ("minimize",):
            if getattr(mod, attr, None) is orig:
                setattr(mod, attr, opt)
                patched.append((mod, attr))
    try:
        yield opt
    finally:
        for mod, attr in patched:
            setattr(mod, attr, orig)


Y = np.array([1.5, -0.5, 2.0])


D = np.float64  # Python floats become single-precision constants, which PyTensor then folds with rounding


def models():
    P = {}

    def prog(name, bound, coords=None):
        def deco(f):
            def build():
                with pm.Model(coords=coords) as m:
                    f()
                return m
            P[name] = (bound, build)
            return f
        return deco

    @prog("scale-first", "a transformed variable declared before an untransformed one")
    def _():
        s = pm.HalfNormal("s", D(2.0))
        mu = pm.Normal("mu", D(0.5), D(4.0))
        pm.Normal("y", mu, s, observed=Y)

    @prog("scale-last", "an untransformed variable declared before a transformed one")
    def _():
        mu = pm.Normal("mu", D(0.5), D(4.0))
        s = pm.Exponential("s", D(2.0))
        pm.Normal("y", mu, s, observed=Y)

    @prog("no-transform", "untransformed variables only")
    def _():
        a = pm.Normal("a", D(0.5), D(4.0))
        b = pm.Normal("b", a, D(2.0))
        pm.Normal("y", a * b, D(1.0), observed=Y)

    @prog("dims", "vectors with dims between scalars, deterministic, potential", coords={"g": ["u", "v"], "n": [0, 1, 2]})
    def _():
        s = pm.HalfNormal("s", D(2.0), dims="g")
        m = pm.Normal("m", D(0.0), D(1.0))
        b = pm.Normal("b", m, s, dims="g")
        d = pm.Deterministic("d", b * s, dims="g")
        pm.Potential("p", -(d**2).sum() / 4)
        pm.Normal("y", b[0] + m, D(1.5), observed=Y, dims="n")

    @prog("matrix-dims", "a matrix with dims after a scale", coords={"g": ["u", "v"], "h": [5, 7]})
    def _():
        s = pm.Exponential("s", D(1.0))
        b = pm.Normal("b", np.array([[0.0, 1.0], [2.0, -1.0]]), s, dims=("g", "h"))
        pm.Normal("y", b.sum(), D(1.0), observed=1.0)

    @prog("vector-no-dims", "vectors without dims")
    def _():
        s = pm.Exponential("s", np.array([1.0, 2.0]), shape=(2,))
        b = pm.Normal("b", D(0.0), s, shape=(2,))
        pm.Normal("y", b[0] * 2 + b[1], D(1.0), observed=Y)

    @prog("data", "mutable data and an interval", coords={"n": [0, 1, 2]})
    def _():
        x = pm.Data("x", np.array([0.5, 1.0, -1.0]), dims="n")
        w = pm.Normal("w")
        u = pm.Uniform("u", D(-1.0), D(3.0))
        pm.Normal("y", w * x + u, D(1.0), observed=Y, dims="n")

    @prog("hierarchy", "three levels declared from the top", coords={"g": ["u", "v"]})
    def _():
        tau = pm.HalfCauchy("tau", D(1.0))
        mu = pm.Normal("mu", D(0.0), D(2.0))
        th = pm.Normal("th", mu, tau, dims="g")
        pm.Normal("y", th, np.array([1.0, 2.0]), observed=np.array([0.5, 1.5]), dims="g")

    @prog("simplex", "a probability vector before a location", coords={"k": ["a", "b", "c"]})
    def _():
        w = pm.Dirichlet("w", np.array([2.0, 3.0, 4.0]), dims="k")
        m = pm.Normal("m")
        pm.Normal("y", (w * np.array([1.0, 2.0, 3.0])).sum() + m, D(1.0), observed=1.5)

    @prog("beta", "a probability and a positive variable")
    def _():
        p = pm.Beta("p", D(2.0), D(3.0))
        r = pm.Gamma("r", D(2.0), D(1.0))
        pm.Bernoulli("k", p, observed=np.array([1, 0, 1]))
        pm.Normal("y", r * p, D(1.0), observed=0.5)

    @prog("one", "one positive variable")
    def _():
        s = pm.HalfNormal("s", D(2.0))
        pm.Normal("y", D(0.5), s, observed=Y)

    @prog("dims-without-coords", "dims with a length and no labels, a deterministic of another shape")
    def _():
        pm.modelcontext(None).add_coord("g", length=2)
        b = pm.Normal("b", np.array([0.0, 1.0]), D(1.0), dims="g")
        s = pm.Exponential("s", D(1.0))
        pm.Deterministic("all", b.sum() * s)
        pm.Normal("y", b[1], s, observed=Y)

    @prog("data-scale", "data in the prior, a positive vector and a lognormal", coords={"n": [0, 1, 2]})
    def _():
        x = pm.Data("x", np.array([0.5, 1.0, 2.0]), dims="n")
        r = pm.LogNormal("r", D(0.5), D(1.5))
        s = pm.InverseGamma("s", x + 1, x, dims="n")
        pm.Normal("y", r, s, observed=Y, dims="n")
    return P


def quiet():
    c = contextlib.ExitStack()
    c.enter_context(warnings.catch_warnings())
    warnings.simplefilter("ignore")
    return c


def point_values(model, point):
    """value variables of the model and the terms a reported point gives them"""
    return {v: np.asarray(point[v.name], dtype=object) for v in model.value_vars}
