TITLE = "A histogram potential is the log likelihood of the binned data"
ASSUMPTIONS = ["real arithmetic; xhistogram's histogram is a stand-in with its documented contract (half-open bins, the last one closed)",
               "the log density is an arbitrary polynomial of the value, or PyMC's own",
               "dask inputs are not encoded"]
import contextlib

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks.fits import quiet
from checks.p26 import object_tensors
from vlib import alg, ptsym, smt
from vlib.alg import T


class Ints(np.ndarray):
    """object array of terms that reports the type integer data would have"""

    @property
    def dtype(self):
        return np.dtype("int64")


@contextlib.contextmanager
def binning():
    import xhistogram.core as core

    plain = core.histogram

    def histogram(*args, bins=None, axis=None, **k):
        [a] = args
        a = np.ma.asarray(a)
        [edges] = bins if isinstance(bins, list | tuple) else [bins]
        if np.asarray(a.data).dtype != object and np.asarray(edges).dtype != object:
            return plain(*args, bins=bins, axis=axis, **k)
        assert axis == 0 and not any(v for v in k.values()), "unsupported arguments of xhistogram"
        mask, data, edges = np.ma.getmaskarray(a), np.asarray(a.data), np.asarray(edges)
        out = np.zeros((*data.shape[1:], len(edges) - 1), dtype=int)
        for i in np.ndindex(*data.shape):
            if mask[i]:
                continue
            for b in range(len(edges) - 1):
                last = b == len(edges) - 2
                if bool(data[i] >= edges[b]) and bool(data[i] <= edges[b + 1] if last else data[i] < edges[b + 1]):
                    out[i[1:]][b] += 1
                    break
        return out, [edges]
    core.histogram = histogram
    try:
        yield
    finally:
        core.histogram = plain


def density(kind, n):
    """a distribution with an arbitrary (polynomial) log density, and the same as a Python function"""
    if kind == "generic":
        th = pt.vector("th", shape=(n,))
        terms = np.array([alg.var(f"th{k}") for k in range(n)], dtype=object)

        def logp(value, *th):
            return sum(t * value**k for k, t in enumerate(th))
        dist = pm.CustomDist.dist(*[th[k] for k in range(n)], logp=logp, dtype="float64", ndim_supp=0, ndims_params=[0] * n)
        return dist, {th: terms}, lambda x: sum((terms[k] * alg.ipow(T(x), k) for k in range(n)), T(0))
    mu, s = pt.scalar("mu"), pt.scalar("s")
    terms = {mu: alg.var("mu"), s: alg.exp(alg.var("s"))}

    def f(x):
        v = pt.scalar("v")
        return T(np.asarray(ptsym.evaluate([pm.logp(pm.Normal.dist(mu, s), v)], terms | {v: T(x)})[0], dtype=object)[()])
    return pm.Normal.dist(mu, s), terms, f


def run(S, shape, kind, dens, opts):
    S.bound(f"{kind} data of shape {shape}, {dens} density, {opts}: every value")
    n = int(np.prod(shape))
    real = Real(shape, kind, opts)

    def body():
        from pymc_extras.distributions import histogram_approximation

        data = np.array([alg.var(f"d{i}") for i in range(n)], dtype=object).reshape(shape)
        if kind == "zero-inflated":
            smt_assume([x >= T(0) for x in data.ravel()])
            if all(bool(x == T(0)) for x in data.ravel()):
                raise smt.Infeasible()  # nothing left to bin
        given = data.view(Ints) if kind == "discrete" else data
        least = opts.get("min_count")
        if least and not any(sum(bool(x == y) for y in data.ravel()) >= least for x in data.ravel()):
            raise smt.Infeasible()  # nothing left to bin
        dist, giv, f = density(dens, min(n, 3) + 1)
        with quiet(), binning(), object_tensors() as table, pm.Model() as m:
            with S.encoding():
                pot = histogram_approximation("pot", dist, observed=given, **opts)
        [val] = ptsym.evaluate([pot], giv | table)
        want, bins = oracle(data, kind, opts, f)
        return m, np.asarray(val, dtype=object), want, bins

    k = 0
    for path, (out, res) in smt.Explorer([], log_positive=True).run(body):
        k += 1
        if out == "raise":
            raise res
        m, val, want, bins = res
        S.concrete(f"potential@p{k}", [p.name for p in m.potentials] == ["pot"], f"potentials {m.potentials}")
        S.concrete(f"shape@p{k}", val.shape[1:] == tuple(shape[1:]) and (bins is None or val.shape[0] == bins), f"potential of shape {val.shape}, required {bins} bins by {shape[1:]}")
        if val.shape[1:] != tuple(shape[1:]):
            continue
        ranges = {f"d{i}": (0.0 if kind == "zero-inflated" else -3.0, 6.0) for i in range(n)}
        for c in np.ndindex(*shape[1:]):
            S.equal(f"total{list(c)}@p{k}", sum((T(v) for v in val[(slice(None), *c)].ravel()), T(0)), want[c], path, lambda s, c=c: real.total(s, c), ranges)


def smt_assume(bs):
    for b in bs:
        alg.CTX.explorer.assume(b)


def oracle(data, kind, opts, f):
    """the log likelihood of the data, each value standing for its bin"""
    shape = data.shape
    flat = [T(x) for x in data.ravel()]
    want = np.empty(shape[1:], dtype=object)
    if kind == "discrete":
        least = opts.get("min_count") or 0
        kept = [sum(bool(x == y) for y in flat) >= least for x in flat]
        kept = np.array(kept).reshape(shape)
        for c in np.ndindex(*shape[1:]):
            want[c] = sum((f(data[(i, *c)]) for i in range(shape[0]) if kept[(i, *c)]), T(0))
        return want, None
    zero = kind == "zero-inflated"
    used = [x for x in flat if not zero or not bool(x == T(0))]
    edges = quantiles(used, opts["n_quantiles"])
    for c in np.ndindex(*shape[1:]):
        total = T(0)
        for i in range(shape[0]):
            x = T(data[(i, *c)])
            if zero and bool(x == T(0)):
                total = total + f(T(0))
                continue
            for b in range(len(edges) - 1):
                if bool(x < edges[b + 1]) or b == len(edges) - 2:
                    total = total + f((edges[b] + edges[b + 1]) / 2)
                    break
        want[c] = total
    return want, len(edges) - 1 + zero


def quantiles(xs, q):
    """linear interpolation between order statistics at equally spaced probabilities"""
    xs = list(xs)
    out = []
    for x in xs:  # insertion sort
        k = 0
        while k < len(out) and not bool(x < out[k]):
            k += 1
        out.insert(k, x)
    n = len(out)
    edges = []
    for j in range(q):
        num, den = j * (n - 1), q - 1
        lo, rest = divmod(num, den)
        e = out[lo]
        if rest:
            e = e + (out[lo + 1] - out[lo]) * rest / den
        edges.append(e)
    return edges


class Real:
    def __init__(self, shape, kind, opts):
        self.shape, self.kind, self.opts = shape, kind, opts

    def total(self, s, c):
        n = int(np.prod(self.shape))
        data = np.array([s.get(f"d{i}", 0.0) for i in range(n)]).reshape(self.shape)
        if self.kind == "discrete":
            _, ranks = np.unique(np.round(data, 9), return_inverse=True)
            # consecutive values and values with gaps
            for scale in ([0, 1, 2, 3, 4, 5], [0, 1, 3, 4, 7, 9]):
                bad, text = self.compare(np.array(scale)[ranks].reshape(self.shape), c)
                if bad:
                    break
            return bad, text
        return self.compare(data, c)

    def compare(self, data, c):
        from pymc_extras.distributions import histogram_approximation

        dist = pm.Normal.dist(0.5, 1.25)
        with quiet(), pm.Model():
            val = histogram_approximation("pot", dist, observed=data, **self.opts).eval()

        def f(x):
            return float(pm.logp(pm.Normal.dist(0.5, 1.25), x).eval())
        if self.kind == "discrete":
            least = self.opts.get("min_count") or 0
            want = sum(f(x) for x in data[(slice(None), *c)] if (data == x).sum() >= least)
        else:
            zero = self.kind == "zero-inflated"
            e = np.percentile(data[data > 0] if zero else data, np.linspace(0, 100, self.opts["n_quantiles"]))
            want = sum(f(0.0) if zero and x == 0 else f((e[b := min(np.searchsorted(e, x, "right"), len(e) - 1)] + e[b - 1]) / 2) for x in data[(slice(None), *c)])
        got = float(val[(slice(None), *c)].sum())
        return abs(got - want) > 1e-6 * (1 + abs(want)), f"the potential of column {list(c)} of {data.tolist()} is {got:.8g}, the log likelihood is {want:.8g}"


def cases(tier):
    out = []
    for shape in ((3,), (2, 2)):
        for dens in ("generic", "normal"):
            for least in (None, 2):
                out.append((f"discrete-{len(shape)}d-{dens}-{least}", lambda S, shape=shape, dens=dens, least=least: run(S, shape, "discrete", dens, {} if least is None else {"min_count": least})))
    for shape in ((3,), (2, 2)):
        out.append((f"quantile-{len(shape)}d", lambda S, shape=shape: run(S, shape, "continuous", "generic", {"n_quantiles": 3})))
    out.append(("quantile-normal", lambda S: run(S, (3,), "continuous", "normal", {"n_quantiles": 5})))
    out.append(("zero-inflated", lambda S: run(S, (4,), "zero-inflated", "generic", {"n_quantiles": 3, "zero_inflation": True})))
    out.append(("zero-inflated-2d", lambda S: run(S, (2, 2), "zero-inflated", "generic", {"n_quantiles": 3, "zero_inflation": True})))
    return out
