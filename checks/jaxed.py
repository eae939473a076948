"""Shared by the checks of the JAX-based samplers: JAX functions and BlackJAX algorithms that also run on terms."""
import contextlib
import sys

import blackjax
import jax
import numpy as np
import pymc as pm
import pymc.sampling.jax
from pymc.backends.ndarray import NDArray

from checks.fits import D, Y, is_sym, models, quiet, sym, symbolic_functions
from vlib import alg, ptsym, smt
from vlib.alg import T


def programs():
    P = models()

    def prog(name, bound, coords=None):
        def deco(f):
            def build():
                with pm.Model(coords=coords) as m:
                    f()
                return m
            P[name] = (bound, build)
            return f
        return deco

    @prog("column", "a column vector with its own means between scalars", coords={"g": ["u", "v"], "one": [0]})
    def _():
        s = pm.HalfNormal("s", D(2.0))
        x = pm.Normal("x", np.array([[0.5], [-1.0]]), s, dims=("g", "one"))
        pm.Normal("y", (x * np.array([[1.0], [2.0]])).sum(), D(1.5), observed=1.0)

    @prog("length-one", "vectors of length one, one of them positive")
    def _():
        s = pm.Exponential("s", np.array([1.5]), shape=(1,))
        x = pm.Normal("x", D(0.5), s, shape=(1,))
        pm.Deterministic("z", x * 2)
        pm.Normal("y", x + np.array([1.0, 2.0]), D(1.0), observed=np.array([0.5, -1.5]))

    @prog("row", "a row vector and a matrix")
    def _():
        r = pm.Normal("r", np.array([[0.0, 1.0]]), D(2.0), shape=(1, 2))
        q = pm.Normal("q", r, D(1.0), shape=(2, 2))
        pm.Normal("y", q[0, 1], D(1.0), observed=0.5)
    return P


class JaxGraph:
    """what PyMC was asked to turn into a JAX function: run on terms when called with terms"""

    def __init__(self, real, inputs, outputs):
        self.real, self.inputs = real, list(inputs)
        self.outputs = list(outputs) if isinstance(outputs, list | tuple) else [outputs]

    def __call__(self, *args):
        if not any(is_sym(np.asarray(a)) for a in args if not isinstance(a, jax.Array)):
            if callable(self.real):
                return self.real(*args)
        return [sym(o) for o in ptsym.evaluate(self.outputs, dict(zip(self.inputs, (np.asarray(a, dtype=object) for a in args))))]


@contextlib.contextmanager
def replaced(pairs):
    """replace every reference that loaded modules hold to the given functions"""
    patched = []
    for mod in list(sys.modules.values()):
        for attr in {getattr(o, "__name__", None) for o, _ in pairs} - {None}:
            for o, n in pairs:
                if getattr(o, "__name__", None) == attr and isinstance(mod, type(sys)) and mod.__dict__.get(attr) is o:
                    setattr(mod, attr, n)
                    patched.append((mod, attr, o))
    try:
        yield
    finally:
        for mod, attr, o in patched:
            setattr(mod, attr, o)


@contextlib.contextmanager
def on_terms():
    """JAX functions, traces and compiled functions accept arrays of terms"""
    graph, vmap, put, loop, setup = pymc.sampling.jax.get_jaxified_graph, jax.vmap, jax.device_put, jax.lax.while_loop, NDArray.setup

    def get_jaxified_graph(inputs=None, outputs=None, *a, **k):
        return JaxGraph(graph(inputs, outputs, *a, **k), inputs, outputs)

    def vmap_(f, *a, **k):
        def g(*args):
            if not any(is_sym(np.asarray(x)) for x in args if not isinstance(x, jax.Array)):
                return vmap(f, *a, **k)(*args)
            rows = [f(*(x[i] for x in (np.asarray(y, dtype=object) for y in args))) for i in range(len(args[0]))]
            return [sym(np.stack([np.asarray(r[j]) for r in rows])) for j in range(len(rows[0]))]
        return g

    def put_(x, *a, **k):
        leaves = x if isinstance(x, list | tuple) else [x]
        return x if any(is_sym(np.asarray(v)) for v in leaves) else put(x, *a, **k)

    def while_loop(cond, body, init):
        while bool(cond(init)):
            init = body(init)
        return init

    def setup_(self, *a, **k):
        out = setup(self, *a, **k)
        self.samples = {n: sym(np.zeros(v.shape, dtype=object)) for n, v in self.samples.items()}
        return out

    with symbolic_functions(), replaced([(graph, get_jaxified_graph)]):
        jax.vmap, jax.device_put, jax.lax.while_loop, NDArray.setup = vmap_, put_, while_loop, setup_
        try:
            yield
        finally:
            jax.vmap, jax.device_put, jax.lax.while_loop, NDArray.setup = vmap, put, loop, setup


def letters(prefix, shape, numbers):
    """an array of variables, or of the numbers given for them"""
    a = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(*shape)):
        name = prefix + "_".join(map(str, i))
        a[i] = alg.var(name) if numbers is None else numbers.get(name, 0.3 + 0.15 * (k % 7))
    return sym(a) if numbers is None else a.astype(float)


def evaluate(outputs, point):
    return [np.asarray(o, dtype=object) for o in ptsym.evaluate(list(outputs), point)]


def compare(S, got, want, path, tag, rerun):
    """every entry of every result against its specification; `rerun(assign)` gives the results on numbers"""
    S.concrete(f"results{tag}", set(got) == set(want), f"results {sorted(set(got) ^ set(want))} are missing or unexpected")
    for lab, w in want.items():
        if lab not in got:
            continue
        a, w = np.asarray(got[lab], dtype=object), np.asarray(w, dtype=object)
        if not S.concrete(f"{lab}/shape{tag}", a.shape == w.shape, f"{lab} has shape {a.shape}, required {w.shape}"):
            continue
        for i in np.ndindex(*a.shape):
            def rep(assign, lab=lab, i=i, w=w):
                a = Fill(assign)
                try:
                    x = float(np.asarray(rerun(a)[lab], dtype=float)[i])
                except Exception as e:
                    return True, f"{lab} raises {type(e).__name__}: {str(e)[:200]}"
                y = alg.NumEval(a)(T(w[i]))
                return not abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)), f"{lab}{list(i)} = {x!r}, required {y!r} at {assign}"
            S.equal(f"{lab}[{','.join(map(str, i))}]{tag}" if i else f"{lab}{tag}", T(a[i]), T(w[i]), path, rep)


class Fill(dict):
    """numbers for the variables; those nobody asked for in particular get their own default"""

    def get(self, k, default=None):
        return self.setdefault(k, default)


def validate(S, got, rerun):
    """the encoding against the real code on numbers"""
    a = Fill()
    real = rerun(a)
    for lab, x in got.items():
        for i in np.ndindex(*np.shape(x)):
            e, r = alg.NumEval(a)(T(np.asarray(x, dtype=object)[i])), float(np.asarray(real[lab], dtype=float)[i])
            if not abs(e - r) <= 1e-5 * (1 + abs(e) + abs(r)):
                S.unknown("translator", f"{lab}{list(i)}: encoding {e}, real code {r}")
                return
    S.validated += 1
