TITLE = "State space matrices hold exactly what was assigned, where it was assigned"
ASSUMPTIONS = ["real arithmetic", "values are real arrays or float64 tensors of known static shape"]
import itertools

import numpy as np
import pytensor.tensor as pt

from vlib import alg, ptsym

P, M, R = 2, 3, 2
CORE = {"design": (P, M), "obs_intercept": (P,), "obs_cov": (P, P), "transition": (M, M), "state_intercept": (M,), "selection": (M, R), "state_cov": (R, R),
        "initial_state": (M,), "initial_state_cov": (M, M)}
STATIC = ("initial_state", "initial_state_cov")
N = 4
ALL = slice(None)


def fresh(**kw):
    from pymc_extras.statespace.core.representation import PytensorRepresentation

    return PytensorRepresentation(k_endog=P, k_states=M, k_posdef=R, **kw)


class History:
    """a representation and, beside it, plain arrays that are assigned to in the same way"""

    def __init__(self, **kw):
        self.ssm = fresh(**kw)
        self.ref = {n: ptsym.to_obj(np.zeros(s)) for n, s in CORE.items()}
        self.givens, self.reads = {}, []

    def tensor(self, shape):
        name = f"v{len(self.givens)}"
        x = pt.tensor(name, shape=shape, dtype="float64")
        self.givens[x] = alg.array(name, shape) if shape else ptsym.arr0(alg.var(name))
        return x, self.givens[x]

    def numbers(self, shape):
        k = len(self.givens) + sum(len(r) for r in self.reads) + 1
        v = (np.arange(int(np.prod(shape))).reshape(shape) + 0.25) * 0.5 * k
        return v, ptsym.to_obj(v)

    def value(self, shape, symbolic):
        return self.tensor(shape) if symbolic else self.numbers(shape)

    def varying(self, name):
        return self.ref[name].ndim > len(CORE[name])

    def assign(self, name, symbolic=True, rows=None):
        x, v = self.value((*(() if rows is None else (rows,)), *CORE[name]), symbolic)
        self.ssm[name] = x
        self.ref[name] = v.copy()

    def put(self, name, idx, symbolic=True, scalar=False):
        """idx: index of the matrix as the user sees it"""
        target = self.ref[name] = self.ref[name].copy()
        x, v = self.value(() if scalar else target[idx].shape if isinstance(target[idx], np.ndarray) else (), symbolic)
        self.ssm[(name, *idx)] = x if not (scalar and not symbolic) else float(x)
        target[idx] = v if v.ndim else v[()]

    def read_all(self):
        self.reads.append([self.ssm[n] for n in CORE])
        return [self.ref[n] for n in CORE]


IDX = {1: [(0,), (-1,), (slice(0, 2),), (slice(None, None, -1),), (ALL,), (Ellipsis,), (np.array([1, 0]),)],
       2: [(0, 1), (-1, -1), (0,), (slice(0, 2),), (ALL, 1), (ALL, slice(1, None)), (slice(None, None, 2), slice(0, 1)), (ALL,), (ALL, ALL), (Ellipsis, 0), (np.array([1, 0]), np.array([0, 1])),
           (ALL, np.array([1, 0])), (np.array([1, 0]),), (np.array([1, 0]), ALL)]}
TIMED = {1: [(2, 1), (ALL, 0), (slice(1, 3), ALL), (-1, ALL), (np.array([0, 2]), 1)],
         2: [(2, 0, 1), (ALL, 0, 1), (slice(0, 2), ALL, 1), (-1, ALL, ALL), (np.array([0, 2]), 1, 0)]}


def show(idx):
    f = lambda i: "..." if i is Ellipsis else ":" if i == ALL else f"{i.start}:{i.stop}:{i.step}".replace("None", "") if isinstance(i, slice) else str(i).replace(" ", ",")
    return ",".join("[" + ",".join(map(str, i)) + "]" if isinstance(i, np.ndarray) else f(i) for i in idx)


def compare(S, label, h, got, want, **kw):
    """every tensor of `got` equals the array the plain assignment gives, shapes included"""
    used = ptsym_inputs(got, h.givens)
    S.graph(label, got, used, lambda: [np.asarray(w, dtype=object) if np.ndim(w) else ptsym.arr0(w if not isinstance(w, np.ndarray) else w[()]) for w in want], **kw)


def ptsym_inputs(outs, givens):
    from pytensor.graph.basic import ancestors

    anc = set(ancestors(outs))
    return {v: a for v, a in givens.items() if v in anc}


def single(S, name):
    """one assignment of each kind, read back whole"""
    S.bound(f"{name}: one whole or partial assignment, then all nine matrices read; {P} series, {M} states, {R} shocks; symbolic values")
    nd = len(CORE[name])
    for symbolic in (True, False):
        tag = "tensor" if symbolic else "array"
        h = History()
        h.assign(name, symbolic)
        compare(S, f"whole-{tag}", h, [h.ssm[n] for n in CORE], h.read_all(), validate=0)
        if name not in STATIC:
            for rows in (2, N):
                h = History()
                h.assign(name, symbolic, rows=rows)
                compare(S, f"timed-{rows}-{tag}", h, [h.ssm[n] for n in CORE], h.read_all(), validate=0)
        for idx in IDX[nd]:
            h = History()
            h.put(name, idx, symbolic)
            compare(S, f"part[{show(idx)}]-{tag}", h, [h.ssm[n] for n in CORE], h.read_all(), validate=0)
            h = History()
            h.put(name, idx, symbolic, scalar=True)
            compare(S, f"fill[{show(idx)}]-{tag}", h, [h.ssm[name]], [h.ref[name]], validate=0)


def reads(S, name):
    """every way of reading part of a matrix"""
    S.bound(f"{name}: static and with {N} time steps, {len(IDX[len(CORE[name])])} ways of indexing; symbolic values")
    nd = len(CORE[name])
    h = History()
    h.assign(name)
    idxs = IDX[nd]
    compare(S, "static", h, [h.ssm[(name, *i)] for i in idxs], [h.ref[name][i] for i in idxs], labels=[f"[{show(i)}]" for i in idxs])
    if name in STATIC:
        return
    full = h.ssm[(name, *[ALL] * (nd + 1))]
    compare(S, "with-time", h, [full], [h.ref[name][None]])
    h = History()
    h.assign(name, rows=N)
    idxs = [*TIMED[nd], (ALL,) * (nd + 1)]
    compare(S, "timed", h, [h.ssm[(name, *i)] for i in idxs], [h.ref[name][i] for i in idxs], labels=[f"[{show(i)}]" for i in idxs])
    for idx in TIMED[nd]:
        for symbolic in (True, False):
            h = History()
            h.assign(name, rows=N)
            h.put(name, idx, symbolic)
            compare(S, f"put[{show(idx)}]-{'tensor' if symbolic else 'array'}", h, [h.ssm[name]], [h.ref[name]], validate=0)


def actions(name):
    nd = len(CORE[name])
    out = {"whole": lambda h: h.assign(name), "numbers": lambda h: h.assign(name, False),
           "element": lambda h: h.put(name, (0, 1)[:nd] if not h.varying(name) else (1, 0, 1)[: nd + 1]),
           "slice": lambda h: h.put(name, (slice(None, None, 2),) if nd == 1 and not h.varying(name) else (slice(0, 2), -1) if not h.varying(name) else (slice(1, None), ALL, -1)[: nd + 1])}
    if name not in STATIC:
        out["timed"] = lambda h: h.assign(name, rows=N)
        out["timed-numbers"] = lambda h: h.assign(name, False, rows=3)
    return out


def histories(S, name, length, first=None):
    """every history of assignments of this length, another matrix assigned in between"""
    acts = actions(name)
    other = "transition" if name != "transition" else "design"
    S.bound(f"{name}: all histories of {length} assignments out of {list(acts)}" + (f" starting with {first}" if first else "") + f", {other} assigned after the first; symbolic values")
    for seq in itertools.product(acts, repeat=length):
        if first and seq[0] != first:
            continue
        h = History()
        for i, a in enumerate(seq):
            acts[a](h)
            if i == 0:
                h.put(other, (1, 1))
        compare(S, "-".join(seq), h, [h.ssm[name], h.ssm[other]], [h.ref[name], h.ref[other]], validate=0)


def copies(S, name):
    """a copy and the original do not share later assignments"""
    S.bound(f"{name}: original and copy assigned to in turn, whole, partial and with time steps; symbolic values")
    acts = actions(name)
    for a, b in itertools.product(acts, repeat=2):
        h = History()
        h.assign(name)
        g = History()
        g.ssm, g.ref, g.givens = h.ssm.copy(), dict(h.ref), h.givens
        acts[a](h)
        acts[b](g)
        g.put(name, (0,) * g.ref[name].ndim)
        compare(S, f"{a}|{b}", h, [h.ssm[name], g.ssm[name]], [h.ref[name], g.ref[name]], validate=0)


def constructed(S, name):
    """matrices given to the constructor behave as assigned ones do"""
    S.bound(f"{name}: given to the constructor as array or tensor, static or with {N} time steps, then assigned to; symbolic values")
    for rows in (None, N) if name not in STATIC else (None,):
        for symbolic in (True, False):
            for then in (None, "element", "slice", "whole"):
                h = History()
                x, v = h.value((*(() if rows is None else (rows,)), *CORE[name]), symbolic)
                h.ssm = fresh(**{name: x})
                h.ref[name] = v.copy()
                if then:
                    actions(name)[then](h)
                compare(S, f"{'static' if rows is None else 'timed'}-{'tensor' if symbolic else 'array'}-{then}", h, [h.ssm[n] for n in CORE], [h.ref[n] for n in CORE], validate=0)


def refuses(S, name):
    """wrong shapes are refused and change nothing"""
    S.bound(f"{name}: shapes that do not fit, as arrays and tensors, assigned or given to the constructor (finite structure)")
    core = CORE[name]
    bad = {"larger": tuple(s + 1 for s in core), "extra": (N, N, *core), "short": core[1:] or (), "last": (*core[:-1], core[-1] + 1), "timed-larger": (N, *core[:-1], core[-1] + 1)}
    if name in STATIC:
        bad["timed"] = (N, *core)
    for label, shape in bad.items():
        for tag, x in (("tensor", pt.tensor("x", shape=shape, dtype="float64")), ("array", np.ones(shape))):
            h = History()
            h.assign(name)
            before = dict(h.ssm.shapes)
            S.concrete(f"{label}-{tag}", refused(lambda: h.ssm.__setitem__(name, x)), f"shape {shape} is accepted for {core}")
            compare(S, f"{label}-{tag}/kept", h, [h.ssm[name]], [h.ref[name]], validate=0)
            S.concrete(f"{label}-{tag}/shapes", before == h.ssm.shapes, f"the recorded shape is now {h.ssm.shapes[name]}")
            S.concrete(f"{label}-{tag}/constructor", refused(lambda: fresh(**{name: x})), f"the constructor accepts shape {shape} for {core}")


def refused(f):
    try:
        f()
    except (ValueError, IndexError, TypeError):
        return True
    return False


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append((name, lambda S: fn(S, *a, **k)))

    for name in CORE:
        add(f"single-{name}", single, name)
        add(f"reads-{name}", reads, name)
        add(f"copies-{name}", copies, name)
        add(f"constructed-{name}", constructed, name)
        add(f"refuses-{name}", refuses, name)
        add(f"histories2-{name}", histories, name, 2)
        if tier == "thorough" or name in ("design", "state_intercept", "initial_state_cov"):
            for a in actions(name):
                add(f"histories3-{name}-{a}", histories, name, 3, a)
    return out
