"""Shared by the distribution checks: densities against their formulas on the whole line, rejection of
invalid parameters, and the law of the draws."""
import warnings

import numpy as np
import pytensor.tensor as pt

from checks.marg import Inputs
from vlib import alg, ptsym, smt
from vlib.alg import T
from vlib.harness import GraphReal, fmt

LOG = dict(log_positive=False)


def size_of(sz):
    """the size argument of a random operation, None if unspecified"""
    if sz is None or (isinstance(sz, np.ndarray) and sz.ndim == 0 and sz[()] is None):
        return None
    return tuple(int(s) for s in np.asarray(sz).ravel())


def deep_exp(t):
    """exp of a log density, for comparing densities instead of their logarithms"""
    return alg.exp(T(t))


def density(S, name, out, I, spec, valid=(), labels=None, explorer=LOG, **kw):
    """`out` equals spec() for every value and every valid parameter"""
    S.graph(name, [out], I.givens, lambda: [spec()], assumptions=[*I.assume, *valid], ranges=I.ranges, explorer=explorer, labels=labels or ["value"], **kw)


def rejects(S, name, out, I, valid):
    """a parameter outside the documented domain raises, whatever the value"""
    invalid = alg.bnot(alg.ball(list(valid)))
    assume = [*I.assume, invalid]
    g = GraphReal([out], I.givens)
    ex = smt.Explorer(assume, log_positive=False)
    if not S.reachable(f"{name}/inputs", assume, ranges=I.ranges):
        return
    n = 0
    for path, (kind, res) in ex.run(lambda: ptsym.evaluate([out], I.givens)):
        n += 1

        def rep(assign):
            names = sorted({alg.CTX.atoms[i].name for a in I.givens.values() for x in np.asarray(a, dtype=object).flat for i in (alg.t_atoms(x) if isinstance(x, alg.Term) else ())})
            full = {m: 0.5 for m in names} | assign
            try:
                r = g(full)[0]
            except Exception as e:
                return False, f"raises {type(e).__name__}"
            return True, f"invalid parameters accepted: returns {r} at {fmt(full)}"

        S.prove(f"{name}@p{n}", kind == "raise", path, rep, I.ranges)
    if not n:
        S.unknown(name, "no feasible path")


def scalar_inputs(spec):
    """{'x': 'real' | 'pos'} -> Inputs and the pytensor scalars"""
    I = Inputs()
    vs = {}
    for n, k in spec.items():
        vs[n] = I.real(n) if k == "real" else I.positive(n)
    return I, vs, {n: T(I.givens[v][()]) for n, v in vs.items()}


def quiet():
    w = warnings.catch_warnings()
    return w
