"""Shared by the marginalization checks: the marginal log density against the sum, over every
assignment of the discrete variables, of the joint density of the model as the user wrote it."""
import itertools
import warnings

import numpy as np
import pymc as pm  # noqa: F401
import pytensor.tensor as pt

from pytensor.compile import SharedVariable
from pytensor.graph.basic import Constant, ancestors

from vlib import alg, ptsym
from vlib.alg import T


class Inputs:
    """symbolic parameters of a model program: pytensor inputs together with their symbolic values"""

    def __init__(self):
        self.givens, self.assume, self.ranges = {}, [], {}

    def real(self, name, shape=()):
        v = pt.tensor(name, shape=shape, dtype="float64")
        self.givens[v] = alg.array(name, shape) if shape else ptsym.arr0(alg.var(name))
        return v

    def positive(self, name):
        v = pt.tensor(name, shape=(), dtype="float64")
        t = alg.positive_var(name)
        self.givens[v] = ptsym.arr0(t)
        self.ranges[name] = (0.2, 3.0)
        return v

    def prob(self, name, shape=()):
        v = pt.tensor(name, shape=shape, dtype="float64")
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            nm = name + "".join(f"_{j}" for j in i)
            a[i] = alg.positive_var(nm)
            self.assume.append(alg.lt(a[i], T(1)))
            self.ranges[nm] = (0.05, 0.95)
        self.givens[v] = a
        return v

    def simplex(self, name, shape):
        """rows of positive weights that sum to one, written as w / sum(w)"""
        v = pt.tensor(name, shape=shape, dtype="float64")
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape[:-1]):
            tag = name + "".join(f"_{j}" for j in i)
            rest = T(1)
            for k in range(shape[-1] - 1):
                nm = f"{tag}_{k}"
                w = alg.positive_var(nm)
                self.ranges[nm] = (0.05, 0.9 / shape[-1])
                a[i + (k,)] = w
                rest = rest - w
            a[i + (shape[-1] - 1,)] = rest
            self.assume.append(alg.gt(rest, T(0)))
        self.givens[v] = a
        return v


def rv_shape(rv, I):
    shape = rv.type.shape
    if None in shape:
        zeros = {v: np.zeros(a.shape) + 0.5 for v, a in inputs_of([rv], I.givens).items()}
        shape = tuple(int(s) for s in rv.shape.eval(zeros))
    return shape


def value_givens(model, I, skip=(), prefix=""):
    """fresh symbolic values for the value variables of the model's remaining free variables"""
    out = {}
    for rv, vv in model.rvs_to_values.items():
        if rv.name in skip or isinstance(vv, Constant | SharedVariable) or vv.owner is not None:
            continue
        shape = rv_shape(rv, I)
        if type(model.rvs_to_transforms.get(rv)).__name__ == "SimplexTransform":
            shape = (*shape[:-1], shape[-1] - 1)
        out[vv] = alg.array(prefix + vv.name, shape) if shape else ptsym.arr0(alg.var(prefix + vv.name))
    return out


def inputs_of(graphs, givens):
    anc = set(ancestors(graphs))
    return {v: a for v, a in givens.items() if v in anc}


def lse(ts):
    s = T(0)
    for t in ts:
        s = s + alg.exp(T(t))
    return alg.log(s)


def assignments(model, domains, I):
    """every assignment of the marginalized variables: list of {name: int array}"""
    names = list(domains)
    grids = []
    for n in names:
        shape = rv_shape(model[n], I)
        size = int(np.prod(shape))
        grids.append([np.array(v, dtype="int64").reshape(shape) for v in itertools.product(domains[n], repeat=size)])
    return [dict(zip(names, c)) for c in itertools.product(*grids)]


def joint(model, domains, givens, I):
    """log sum over assignments of the model's own joint log density"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lp = model.logp()
    terms = []
    for a in assignments(model, domains, I):
        g = dict(givens)
        for n, val in a.items():
            g[model.rvs_to_values[model[n]]] = val
        full = inputs_of([lp], g)
        [r] = ptsym.evaluate([lp], full)
        terms.append(np.asarray(r, dtype=object)[()])
    return lse(terms)


def run_marginal(S, build, domains, *, order=None, elem=None, unsupported_ok=True, validate=1,
                 timeout_ms=20000):
    """build(I) -> model; `domains`: {name: values}.  Proves marginalize(model, names).logp() ==
    log sum_x exp(joint), for all continuous values and parameters."""
    from pymc_extras.model.marginal.marginal_model import marginalize

    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = build(I)
        try:
            with S.encoding():
                mm = marginalize(model, list(order or domains))
                lp = mm.logp()
        except NotImplementedError as e:
            if unsupported_ok:
                S.concrete("refused", True, str(e))
                return
            S.violation("refused", f"refuses a supported model: {e}")
            return
    vg = value_givens(model, I, skip=set(domains))
    by_name = {vv.name: a for vv, a in vg.items()}
    mvg = {vv: by_name[vv.name] for rv, vv in mm.rvs_to_values.items() if vv.name in by_name}
    allg = {**I.givens, **vg}
    givens = inputs_of([lp], {**I.givens, **mvg})

    def spec():
        return [ptsym.arr0(joint(model, domains, allg, I))]

    S.graph("logp", [lp], givens, spec, assumptions=I.assume, ranges=I.ranges, validate=validate, timeout_ms=timeout_ms)
    if elem:
        elementwise(S, I, model, mm, domains, elem, allg, mvg, validate, timeout_ms)


def elementwise(S, I, model, mm, domains, elem, allg, mvg, validate, timeout_ms):
    """The element-wise log probability of the first dependent: one entry for each element of the
    marginalized variable, at the position of the elements of that dependent it belongs to.
    `elem`: {dependent: axis of the marginalized variable that each batch axis of it follows, or None}"""
    [(name, domain)] = domains.items()
    deps = list(elem)
    with S.encoding():
        lps = mm.logp(vars=[mm[d] for d in deps], sum=False)
    orig = model.logp(vars=[model[name], *(model[d] for d in deps)], sum=False)
    xv = model.rvs_to_values[model[name]]
    shape = rv_shape(model[name], I)

    def spec():
        total = {}
        for k in domain:
            g = {**allg, xv: np.full(shape, k, dtype="int64")}
            px, *pys = ptsym.evaluate(orig, inputs_of(orig, g))
            px, pys = np.asarray(px, dtype=object), [np.asarray(p, dtype=object) for p in pys]
            for i in np.ndindex(*shape):
                t = T(px[i])
                for d, p in zip(deps, pys):
                    for j in np.ndindex(*p.shape):
                        if all(a is None or j[b] == i[a] for b, a in enumerate(elem[d])):
                            t = t + T(p[j])
                total.setdefault(i, []).append(t)
        kept = [a for a in elem[deps[0]] if a is not None]
        out = np.empty([shape[a] for a in kept], dtype=object)
        for i in np.ndindex(*shape):
            out[tuple(i[a] for a in kept)] = lse(total[i])
        return [out]

    S.graph("elementwise", lps[:1], inputs_of(lps[:1], {**I.givens, **mvg}), spec, assumptions=I.assume,
            ranges=I.ranges, validate=validate, timeout_ms=timeout_ms)
