TITLE = "DiscreteMarkovChain: the density, the draws and the initial point describe the same Markov chain"
ASSUMPTIONS = ["real arithmetic", "the transition probabilities are symbolic rows that are positive and sum to one",
               "a Categorical draw takes each value with the probability given to it (the draws are enumerated, their probabilities are symbolic)"]
import itertools
import warnings

import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt

from checks.marg import Inputs
from vlib import alg, ptsym
from vlib.alg import T


class Tape:
    """every sequence of outcomes of the Categorical draws of a graph, with its probability"""

    def __init__(self):
        self.todo = [[]]

    def handler(self, ev, node, ins):
        if type(node.op).__name__ != "CategoricalRV":
            return None
        rng, size, p = ins
        p = np.asarray(p, dtype=object)
        size = node.op._infer_shape(size, node.inputs[2:]) if False else (p.shape[:-1] if size is None else tuple(int(s) for s in np.asarray(size)))
        p = np.broadcast_to(p, size + p.shape[-1:])
        out = np.zeros(size, dtype="int64")
        for i in np.ndindex(*size):
            k = len(self.taken)
            c = self.prefix[k] if k < len(self.prefix) else 0
            if k >= len(self.prefix):
                self.todo.extend(self.taken + [j] for j in range(1, p.shape[-1]))
            self.taken.append(c)
            self.weight = self.weight * T(p[i][c])
            out[i] = c
        return [rng, out]

    def run(self, outputs, givens):
        while self.todo:
            self.prefix, self.taken, self.weight = self.todo.pop(), [], T(1)
            res = ptsym.evaluate(outputs, givens, rv_handler=self.handler)
            yield self.weight, res


def chain(I, k, n_lags, batch, init_batch, T_, P_const=None, how="shape", logits=False, init="p"):
    """a chain with symbolic transition probabilities and initial distribution; returns the variable and the oracle's tables"""
    from pymc_extras.distributions import DiscreteMarkovChain

    if logits:
        L = I.real("L", (k,) * (n_lags + 1))
        Pv = None
        e = np.vectorize(lambda x: alg.exp(T(x)), otypes=[object])(I.givens[L])
        Pt = e / e.sum(axis=-1, keepdims=True)
        args = dict(logit_P=L)
    else:
        Pv = I.simplex("P", (k,) * (n_lags + 1))
        Pt = I.givens[Pv]
        args = dict(P=Pv)
    if init == "default":
        init_dist, pt_ = None, np.full((n_lags, *batch, k), T(1) / k, dtype=object)
    else:
        p = I.simplex("p0", (*init_batch, k))
        init_dist = pm.Categorical.dist(p=p)
        pt_ = np.broadcast_to(I.givens[p], (n_lags, *batch, k))
    if how == "shape":
        args["shape"] = (*batch, T_)
    elif how == "steps":
        args["steps"] = T_ - n_lags
    elif how == "size":
        args["steps"] = T_ - n_lags
        args["size"] = batch
    return DiscreteMarkovChain.dist(init_dist=init_dist, n_lags=n_lags, **args), Pt, pt_


def prob(v, Pt, p0, n_lags):
    """probability of one chain's states, from the definition"""
    out = T(1)
    for i in range(n_lags):
        out = out * T(p0[i][v[i]])
    for t in range(n_lags, len(v)):
        out = out * T(Pt[tuple(v[t - n_lags : t + 1])])
    return out


def run_chain(S, k, n_lags, batch, init_batch, T_, value_batch=(), **kw):
    S.bound(f"{k} states, {n_lags} lag(s), {T_} time points, chain batch {batch}, initial distribution batch {init_batch}, value batch {value_batch or batch}; every state sequence, every P and p0")
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with S.encoding():
            rv, Pt, p0 = chain(I, k, n_lags, batch, init_batch, T_, **kw)
            vshape = (*(value_batch or batch), T_)
            value = pt.tensor("value", shape=vshape, dtype="int64")
            lp = pm.logp(rv, value)
    vs = alg.array("v", vshape)
    assume = list(I.assume)
    for x in vs.flat:
        assume.append(alg.bany([alg.eq(x, j) for j in range(k)]))
        I.ranges[alg.CTX.atoms[next(iter(alg.t_atoms(x)))].name] = [float(j) for j in range(k)]
    givens = {**I.givens, value: vs}

    def spec():
        conc = np.empty(vshape, dtype=int)
        for i in np.ndindex(*vshape):
            conc[i] = ptsym.concretise_int(vs[i], range(k))
        out = np.empty(vshape[:-1], dtype=object)
        p0b = np.broadcast_to(p0, (n_lags, *vshape[:-1], k))
        for b in np.ndindex(*vshape[:-1]):
            out[b] = alg.log(prob(conc[b], Pt, p0b[(slice(None), *b)], n_lags))
        return [out]

    S.graph("logp", [lp], givens, spec, assumptions=assume, ranges=I.ranges, validate=1)


def run_law(S, k, n_lags, batch, init_batch, T_, **kw):
    S.bound(f"law of the draws: {k} states, {n_lags} lag(s), {T_} time points, chain batch {batch}; every outcome of every draw, every P and p0")
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with S.encoding():
            rv, Pt, p0 = chain(I, k, n_lags, batch, init_batch, T_, **kw)
            dist = {}
            for w, [x] in Tape().run([rv], I.givens):
                x = np.asarray(x)
                if x.shape != (*batch, T_):
                    S.violation("shape", f"a draw has shape {x.shape}, required {(*batch, T_)}")
                    return
                key = tuple(int(e) for e in x.flat)
                dist[key] = dist.get(key, T(0)) + w
    fn = []

    def replay(assign):
        """the real code: frequencies of compiled draws against the exact probability"""
        if not fn:
            fn.append(pytensor.function(list(I.givens), [rv, *_rngs_updates(rv)[0]], updates=_rngs_updates(rv)[1], on_unused_input="ignore"))
        ev = alg.NumEval({n: 0.5 / k for n in I.ranges} | assign)
        vals = [np.vectorize(lambda e: float(ev(T(e))), otypes=[float])(np.asarray(a, dtype=object)) for a in I.givens.values()]
        n = 4000
        hits = sum(tuple(int(e) for e in np.asarray(fn[0](*vals)[0]).flat) == cur[0] for _ in range(n))
        want = float(ev(T(cur[1])))
        bad = abs(hits / n - want) > 6 * np.sqrt(max(want * (1 - want), 1e-3) / n)
        return bad, f"the chain {cur[0]} is drawn with frequency {hits / n:.4f}, its probability is {want:.4f}"

    cur = [None, None]
    allv = list(itertools.product(range(k), repeat=int(np.prod(batch)) * T_))
    for v in allv:
        x = np.array(v).reshape(*batch, T_)
        want = T(1)
        for b in np.ndindex(*batch):
            want = want * prob(x[b], Pt, p0[(slice(None), *b)], n_lags)
        cur[:] = v, want
        S.equal(f"law[{''.join(map(str, v))}]", dist.get(v, T(0)), want, I.assume, replay, I.ranges)


def _rngs_updates(rv):
    from pymc.pytensorf import collect_default_updates

    upd = collect_default_updates(outputs=[rv])
    return [], upd


def run_initial(S, k, n_lags, batch, init_batch, T_, observed_model=True, **kw):
    """the initial point of a model: shape of the chain, starts from the most probable states, follows the most probable transitions"""
    from pymc.distributions.distribution import support_point

    S.bound(f"initial point: {k} states, {n_lags} lag(s), {T_} time points, chain batch {batch}; every P and p0 without ties")
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with S.encoding():
            rv, Pt, p0 = chain(I, k, n_lags, batch, init_batch, T_, **kw)
            sp = support_point(rv)
    assume = list(I.assume)
    rows = {r.tobytes() if False else id(r): r for r in [*Pt.reshape(-1, k), *p0.reshape(-1, k)]}
    for r in rows.values():
        for a, b in itertools.combinations(r, 2):
            assume.append(alg.bnot(alg.eq(T(a), T(b))))

    def amax(row):
        best = 0
        for j in range(1, k):
            if bool(alg.gt(T(row[j]), T(row[best]))):
                best = j
        return best

    def spec():
        out = np.empty((*batch, T_), dtype=object)
        for b in np.ndindex(*batch):
            s = [amax(p0[(i, *b)]) for i in range(n_lags)]
            for _ in range(T_ - n_lags):
                s.append(amax(Pt[tuple(s[-n_lags:])]))
            for t in range(T_):
                out[(*b, t)] = T(s[t])
        return [out]

    S.graph("initial", [sp], I.givens, spec, assumptions=assume, ranges=I.ranges, validate=1)


def run_in_model(S, how):
    """the same chain registered in a model through dims, shape, observed data or size"""
    from pymc_extras.distributions import DiscreteMarkovChain

    S.bound(f"chain of length 3 in a model, length given through {how}")
    I = Inputs()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with S.encoding():
            Pv, p = I.simplex("P", (2, 2)), I.simplex("p0", (2,))
            with pm.Model(coords={"t": [0, 1, 2], "b": [0, 1]}) as m:
                kw = {"dims": dict(dims=("t",)), "shape": dict(shape=(3,)), "steps": dict(steps=2), "batch-dims": dict(dims=("b", "t")),
                      "observed": dict(observed=[0, 1, 1]), "batch-observed": dict(observed=[[0, 1, 1], [1, 1, 0]])}[how]
                x = DiscreteMarkovChain("x", P=Pv, init_dist=pm.Categorical.dist(p=p), **kw)
            lp = m.logp()
    Pt, p0 = I.givens[Pv], np.broadcast_to(I.givens[p], (1, 2))
    shape = (2, 3) if "batch" in how else (3,)
    vv = m.rvs_to_values[x]
    assume = list(I.assume)
    givens = dict(I.givens)
    if "observed" in how:
        vals = np.asarray(kw["observed"])
    else:
        vals = alg.array("v", shape)
        givens[vv] = vals
        for e in vals.flat:
            assume.append(alg.bany([alg.eq(e, j) for j in range(2)]))
            I.ranges[alg.CTX.atoms[next(iter(alg.t_atoms(e)))].name] = [0.0, 1.0]

    def spec():
        v = np.empty(shape, dtype=int)
        for i in np.ndindex(*shape):
            v[i] = ptsym.concretise_int(vals[i], range(2))
        r = T(0)
        for b in np.ndindex(*shape[:-1]):
            r = r + alg.log(prob(v[b], Pt, p0, 1))
        return [ptsym.arr0(r)]

    S.graph("model-logp", [lp], givens, spec, assumptions=assume, ranges=I.ranges, validate=1)


def cases(tier):
    C = []

    def add(name, f, *a, **kw):
        C.append((name, lambda S: f(S, *a, **kw)))

    big = tier == "thorough"
    add("logp-2s-1l", run_chain, 2, 1, (), (), 5 if big else 4)
    add("logp-3s-1l", run_chain, 3, 1, (), (), 4 if big else 3)
    add("logp-2s-2l", run_chain, 2, 2, (), (), 5 if big else 4)
    add("logp-2s-3l", run_chain, 2, 3, (), (), 5)
    add("logp-3s-2l", run_chain, 3, 2, (), (), 3)
    add("logp-batch", run_chain, 2, 1, (2,), (), 3)
    add("logp-batch-init", run_chain, 2, 1, (2,), (2,), 3)
    add("logp-batch-init-3", run_chain, 2, 1, (3,), (3,), 2)
    add("logp-batch-2l", run_chain, 2, 2, (2,), (2,), 3)
    add("logp-batch-2d", run_chain, 2, 1, (2, 2), (2,), 2)
    add("logp-value-batch", run_chain, 2, 1, (), (), 3, value_batch=(2,))
    add("logp-steps", run_chain, 2, 1, (), (), 3, how="steps")
    add("logp-steps-2l", run_chain, 2, 2, (), (), 4, how="steps")
    add("logp-size", run_chain, 2, 1, (2,), (), 3, how="size")
    add("logp-logits", run_chain, 2, 1, (), (), 3, logits=True)
    add("logp-logits-2l", run_chain, 2, 2, (), (), 3, logits=True)
    add("logp-default-init", run_chain, 3, 1, (), (), 2, init="default")
    add("logp-default-init-2l", run_chain, 2, 2, (), (), 3, init="default")
    for nm, a, kw in [("2s-1l", (2, 1, (), (), 5 if big else 4), {}), ("3s-1l", (3, 1, (), (), 3), {}), ("2s-2l", (2, 2, (), (), 5 if big else 4), {}),
                      ("2s-3l", (2, 3, (), (), 5), {}), ("3s-2l", (3, 2, (), (), 3), {}), ("batch", (2, 1, (2,), (), 3), {}),
                      ("batch-init", (2, 1, (2,), (2,), 3), {}), ("batch-2l", (2, 2, (2,), (2,), 3), {}), ("steps-2l", (2, 2, (), (), 4), dict(how="steps")),
                      ("logits", (2, 1, (), (), 3), dict(logits=True)), ("default-init", (3, 1, (), (), 2), dict(init="default")),
                      ("size", (2, 1, (2,), (), 2), dict(how="size"))]:
        add(f"law-{nm}", run_law, *a, **kw)
    for nm, a, kw in [("2s-1l", (2, 1, (), (), 4), {}), ("3s-1l", (3, 1, (), (), 3), {}), ("2s-2l", (2, 2, (), (), 4), {}), ("2s-3l", (2, 3, (), (), 4), {}),
                      ("batch", (2, 1, (2,), (), 3), {}), ("batch-init", (2, 1, (2,), (2,), 3), {}), ("batch-2l", (2, 2, (2,), (2,), 3), {})]:
        add(f"initial-{nm}", run_initial, *a, **kw)
    for how in ["dims", "shape", "steps", "batch-dims", "observed", "batch-observed"]:
        add(f"model-{how}", run_in_model, how)
    return C
