TITLE = "The Laplace approximation is the Gaussian of the model's own curvature"
ASSUMPTIONS = ["real arithmetic; optimizer, matrix inversion and Gaussian draws are stand-ins whose results are arbitrary numbers, so convergence and the numerical inverse are not claimed",
               "the oracle is PyMC's own log density of the model without transforms, or of the transformed model with its Jacobian; second derivatives are taken symbolically by the check",
               "curvature computed by JAX is not encoded"]
import contextlib
import itertools

import numpy as np
import pymc_extras
import scipy.stats

from checks.fits import models, optimizer, quiet, sym, symbolic_functions
from vlib import alg, ptsym, smt
from vlib.alg import T

JITTER = 2.0**-20


class Gaussian:
    """stands in for scipy.stats.multivariate_normal and Generator.multivariate_normal"""

    def __init__(self, values=None):
        self.calls, self.values = [], values

    def make(self, mean, cov, size, squeeze):
        mean, cov = np.asarray(mean), np.asarray(cov)
        n = mean.shape[-1]
        size = tuple(np.atleast_1d(size)) if size is not None else ()
        full = (*size, n)
        if self.values is None:
            z = np.empty(full, dtype=object)
            for i in np.ndindex(*full):
                z[i] = alg.var("z" + "_".join(map(str, i)))
            z = sym(z)
        else:
            z = np.array([self.values.get("z" + "_".join(map(str, i)), 0.3 + 0.1 * k) for k, i in enumerate(np.ndindex(*full))]).reshape(full)
        self.calls.append((mean, cov, z))
        return z.squeeze() if squeeze else z

    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None, **k):
        outer = self

        class Frozen:
            def rvs(self, size=1, random_state=None):
                return outer.make(mean, cov, size, True)  # SciPy drops axes of length one
        return Frozen()

    def rvs(self, mean=None, cov=1, size=1, random_state=None):
        return self.make(mean, cov, size, True)


@contextlib.contextmanager
def gaussian(values=None):
    g = Gaussian(values)
    orig, rng = scipy.stats.multivariate_normal, np.random.default_rng

    class Rng(np.random.Generator):
        def multivariate_normal(self, mean, cov, size=None, *a, **k):
            return g.make(mean, cov, size, False)
    scipy.stats.multivariate_normal = g
    np.random.default_rng = lambda *a, **k: Rng(rng(*a, **k).bit_generator)
    try:
        yield g
    finally:
        scipy.stats.multivariate_normal, np.random.default_rng = orig, rng


@contextlib.contextmanager
def inversion(log):
    """matrix inversion returns fresh numbers and records its argument"""
    keep = np.linalg.pinv, np.linalg.inv

    def inv(real):
        def f(a, *args, **k):
            a = np.asarray(a)
            if a.dtype != object:
                return real(a, *args, **k)
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = alg.var(f"c{min(i)}_{max(i)}")
            log.append(a)
            return sym(out)
        return f
    np.linalg.pinv, np.linalg.inv = inv(keep[0]), inv(keep[1])
    try:
        yield
    finally:
        np.linalg.pinv, np.linalg.inv = keep


def fit(S, build, unconstrained, chains, draws, outside, numbers=None, **kw):
    from pymc_extras.inference.laplace import fit_laplace

    log = []
    with contextlib.ExitStack() as st:
        st.enter_context(quiet())
        if numbers is None:
            st.enter_context(symbolic_functions())
            st.enter_context(inversion(log))
        opt = st.enter_context(optimizer())
        if numbers is not None:
            plain = type(opt).__call__

            class Num(type(opt)):
                def __call__(self, f, x0, *a, **k):
                    r = plain(self, f, x0, *a, **k)
                    r.x = np.array([numbers.get(f"x{i}", 0.5) for i in range(len(x0))])
                    return r
            opt.__class__ = Num
        g = st.enter_context(gaussian(numbers))
        model = build()
        args = dict(progressbar=False, random_seed=1, chains=chains, draws=draws, fit_in_unconstrained_space=unconstrained, zero_tol=0.0 if numbers is None else 1e-8, diag_jitter=JITTER) | kw
        dispatch = args.pop("dispatch", False)
        call = (lambda *a, **k: pymc_extras.fit(method="laplace", optimize_method=a[0], **k)) if dispatch else fit_laplace
        with S.encoding():
            if outside:
                idata = call("BFGS", model=model, **args)
            else:
                with model:
                    idata = call("BFGS", **args)
        if args.get("return_raw"):
            idata, raw = idata
            assert raw.message == "stand-in"
    return model, idata, log, g, opt


def rows_of(model, name, value_name, shape, labels):
    """positions of a variable's entries among the row labels, in its own order"""
    hits = [k for k, r in enumerate(labels) if r == value_name or r.startswith(value_name + "[")]
    return hits


def run(S, name, unconstrained, chains=2, draws=2, outside=False, **kw):
    bound, build = models()[name]
    S.bound(f"{bound}; every optimum, {chains} chains of {draws} arbitrary draws; {'unconstrained' if unconstrained else 'original'} space")

    def body():
        from pymc_extras.inference.find_map import find_MAP

        with quiet(), symbolic_functions(), optimizer():
            m0 = build()
            with m0:
                point = find_MAP("BFGS", progressbar=False, random_seed=1)
        model, idata, log, g, opt = fit(S, build, unconstrained, chains, draws, outside, **kw)
        # the density whose curvature is wanted, at the reported point
        if unconstrained:
            dens, jac = model, True
            target = {v.name: (v, np.asarray(point[v.name], dtype=object)) for v in model.value_vars}
        else:
            from pymc.model.transform.conditioning import remove_value_transforms
            from pymc.model.transform.optimization import freeze_dims_and_data

            with quiet():
                dens, jac = remove_value_transforms(freeze_dims_and_data(model)), False
            target = {v.name: (v, np.asarray(point[v.name], dtype=object)) for v in dens.value_vars}
        # differentiate at fresh variables, then substitute the point
        with quiet():
            logp = dens.logp(jacobian=jac)
        return model, idata, log, g, point, target, logp

    n = 0
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        n += 1
        if kind == "raise":
            raise res
        obligations(S, f"@p{n}" if n > 1 else "", path, unconstrained, chains, draws, outside, build, kw, *res)


def obligations(S, tag, path, unconstrained, chains, draws, outside, build, kw, model, idata, log, g, point, target, logp):
    labels = [str(r) for r in idata.fit["mean_vector"].coords["rows"].values]
    mean = idata.fit["mean_vector"].values
    cov = idata.fit["covariance_matrix"].transpose("rows", "columns").values
    total = sum(a.size for _, a in target.values())
    S.concrete(f"rows{tag}", len(labels) == total == len(set(labels)) and mean.shape == (total,) and cov.shape == (total, total)
               and [str(c) for c in idata.fit["covariance_matrix"].coords["columns"].values] == labels, f"rows {labels} for {total} numbers")
    owner, where = {}, {}
    for nm, (v, a) in target.items():
        where[nm] = rows_of(model, nm, nm, a.shape, labels)
        rv = nm if nm in model.named_vars_to_dims else next((r.name for r in model.free_RVs if model.rvs_to_values[r].name == nm), nm)
        dims = model.named_vars_to_dims.get(rv)
        want = [nm] if a.shape == () else None
        if dims and all(model.coords[d] is not None for d in dims) and a.shape == tuple(len(model.coords[d]) for d in dims):
            want = [f"{nm}[{','.join(map(str, lab))}]" for lab in itertools.product(*(model.coords[d] for d in dims))]
        got = [labels[k] for k in where[nm]]
        S.concrete(f"labels/{nm}{tag}", len(got) == a.size and (want is None or got == want), f"rows of {nm} are {got}, required {want or a.size}")
        if len(got) != a.size:
            return
    real = Real(S, build, unconstrained, chains, draws, outside, kw, labels)
    ranges = {f"x{i}": (-1.0, 1.0) for i in range(total)}
    # the centre
    for nm, (v, a) in target.items():
        for k, t in zip(where[nm], a.ravel()):
            S.equal(f"mean/{labels[k]}{tag}", T(mean[k]), T(t), path, lambda s, k=k: real.mean(s, k), ranges)
    # the curvature
    S.concrete(f"inverted{tag}", len(log) == 1 and log[0].shape == (total, total), f"inverted {len(log)} matrices")
    if len(log) != 1 or log[0].shape != (total, total):
        return
    pos = [(nm, k) for nm, (v, a) in target.items() for k in range(a.size)]
    slot = {(nm, k): where[nm][k] for nm, k in pos}
    lp = -interior(logp, target)
    atoms = {(nm, k): fresh(nm, a.shape).ravel()[k] for nm, (v, a) in target.items() for k in range(a.size)}
    grads = {p: alg.diff(lp, atoms[p]) for p in pos}
    sub = {(nm, k): T(target[nm][1].ravel()[k]) for nm, k in pos}
    for p, q in itertools.combinations_with_replacement(pos, 2):
        want = substitute(alg.diff(grads[p], atoms[q]), [(atoms[r], sub[r]) for r in pos])
        for i, j in {(slot[p], slot[q]), (slot[q], slot[p])}:
            S.equal(f"curvature/{labels[i]},{labels[j]}{tag}", T(log[0][i, j]), want, path, lambda s, i=i, j=j: real.curvature(s, i, j), ranges)
    for i in range(total):
        for j in range(total):
            want = alg.var(f"c{min(i, j)}_{max(i, j)}") + (T(JITTER) if i == j else T(0))
            S.equal(f"covariance/{labels[i]},{labels[j]}{tag}", T(cov[i, j]), want, path)
    # the draws
    S.concrete(f"gaussians{tag}", len(g.calls) == 1, f"{len(g.calls)} Gaussians drawn from")
    if len(g.calls) != 1:
        return
    gm, gc, z = g.calls[0]
    S.concrete(f"law{tag}", gm.shape == mean.shape and gc.shape == cov.shape and all(T(a) == T(b) or (T(a) - T(b)).is_zero() for a, b in zip([*gm.ravel(), *gc.ravel()], [*mean.ravel(), *cov.ravel()])),
               "draws are not from the reported mean and covariance")
    z = np.asarray(z, dtype=object)
    S.concrete(f"draws{tag}", z.size == chains * draws * total, f"{z.shape} numbers drawn")
    z = z.reshape(chains, draws, total)
    post = idata.posterior
    names = {r.name for r in model.free_RVs} | {d.name for d in model.deterministics}
    S.concrete(f"variables{tag}", set(post.data_vars) == names, f"posterior of {sorted(post.data_vars)}, required {sorted(names)}")
    with quiet():
        order = sorted(names)
        if unconstrained:
            outs = [model.replace_rvs_by_values([model[n]])[0] for n in order]
        else:
            from pytensor.graph.replace import clone_replace
            ins = {r: r.type(name="in_" + r.name) for r in model.free_RVs}
            outs = clone_replace([ins[model[n]] if model[n] in ins else model[n] for n in order], ins, rebuild_strict=False)
    for c in range(chains):
        for d in range(draws):
            giv = {}
            for nm, (v, a) in target.items():
                val = np.array([z[c, d, k] for k in where[nm]], dtype=object).reshape(a.shape)
                if unconstrained:
                    giv[next(x for x in model.value_vars if x.name == nm)] = val
                else:
                    giv[ins[model[nm]]] = val
            want = ptsym.evaluate(outs, giv)
            for nme, w in zip(order, want):
                if nme not in post.data_vars:
                    continue
                w = np.asarray(w, dtype=object)
                got = post[nme].transpose("chain", "draw", ...).values
                if got.shape != (chains, draws, *w.shape):
                    S.concrete(f"posterior/{nme}/shape{tag}", False, f"posterior of {nme} has shape {got.shape}, required {(chains, draws, *w.shape)}")
                    continue
                for i in np.ndindex(*w.shape):
                    S.equal(f"posterior/{nme}{list((c, d) + i)}{tag}", T(got[c, d][i] if w.shape else got[c, d]), T(w[i]), path, lambda s, nme=nme, c=c, d=d, i=i: real.posterior(s, nme, c, d, i), ranges)
    for nme in names:
        dims = model.named_vars_to_dims.get(nme)
        if dims and nme in post.data_vars:
            ok = tuple(post[nme].dims) == ("chain", "draw", *dims) and all(list(post[nme].coords[d].values) == list(model.coords[d]) for d in dims if model.coords[d] is not None)
            S.concrete(f"dims/{nme}{tag}", ok, f"{nme} has dims {post[nme].dims} and coordinates {[list(post[nme].coords[d].values) for d in post[nme].dims if d in post[nme].coords]}")
    obs = {r.name: model.rvs_to_values[r].data for r in model.observed_RVs}
    S.concrete(f"observed{tag}", set(idata.observed_data.data_vars) == set(obs) and all(np.array_equal(idata.observed_data[k].values, np.atleast_1d(v)) for k, v in obs.items()), "observed data differs from the model's")


def fresh(nm, shape):
    a = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(*shape)):
        a[i] = alg.var(f"at_{nm}_{k}")
    return a


def interior(logp, target):
    """the density as a function of its values, on the branch that holds inside the support"""
    at = alg.NumEval({f"x{i}": 0.3 - 0.1 * i for i in range(30)})
    point = {f"at_{nm}_{k}": float(at(T(t))) for nm, (v, a) in target.items() for k, t in enumerate(a.ravel())}
    ev = alg.NumEval(point)
    found = []
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(lambda: ptsym.evaluate([logp], {v: fresh(nm, a.shape) for nm, (v, a) in target.items()})):
        if all(b.ev(ev) for b in path):
            if kind == "raise":
                raise res
            found.append(T(np.asarray(res[0], dtype=object)[()]))
    [lp] = found
    return lp


def substitute(t, table):
    """replace variables of a term by terms"""
    by = {next(iter(alg.t_atoms(T(k)))): v for k, v in table}
    cache = {}

    def poly(p):
        out = alg.ZERO
        for m, c in p.items():
            x = alg.Term(alg.p_const(c))
            for a, e in m:
                x = x * alg.ipow(atom(a), e)
            out = out + x
        return out

    def term(t):
        t = T(t)
        out = poly(t.num)
        for f, e in t.den.items():
            out = out / alg.ipow(poly(alg.CTX.factor_polys[f]), e)
        return out

    def atom(i):
        if i in by:
            return by[i]
        if i in cache:
            return cache[i]
        a = alg.CTX.atoms[i]
        if a.kind == "var":
            r = alg.atom_term(a)
        elif a.kind == "sqrt":
            r = alg.sqrt(poly(a.data))
        elif a.kind == "log":
            r = alg.log(poly(a.data))
        elif a.kind == "exp":
            r = alg.exp(term(a.data))
        elif a.kind == "uf" and a.data[0] == "gammaln":
            r = alg.gammaln(term(a.data[1][0]))
        elif a.kind == "uf":
            r = alg.uf(a.data[0], *map(term, a.data[1]))
        else:
            raise NotImplementedError(a.kind)
        cache[i] = r
        return r

    return term(t)


class Real:
    """the same fit with numbers; the required curvature by finite differences of the model's own density"""

    def __init__(self, S, build, unconstrained, chains, draws, outside, kw, labels):
        self.args, self.build, self.un, self.labels, self.S, self.kw = (unconstrained, chains, draws, outside), build, unconstrained, labels, S, kw

    def fit(self, s):
        model, idata, log, g, opt = fit(self.S, self.build, *self.args, numbers=s, **self.kw)
        from pymc_extras.inference.find_map import find_MAP

        with quiet(), optimizer() as o2:
            plain = type(o2).__call__

            class Num(type(o2)):
                def __call__(self, f, x0, *a, **k):
                    r = plain(self, f, x0, *a, **k)
                    r.x = np.array([s.get(f"x{i}", 0.5) for i in range(len(x0))])
                    return r
            o2.__class__ = Num
            with model:
                point = find_MAP("BFGS", progressbar=False, random_seed=1)
        return model, idata, g, point

    def space(self, model):
        from pymc.model.transform.conditioning import remove_value_transforms
        from pymc.model.transform.optimization import freeze_dims_and_data

        with quiet():
            m = model if self.un else remove_value_transforms(freeze_dims_and_data(model))
            f = m.compile_fn(m.logp(jacobian=self.un), inputs=m.value_vars, on_unused_input="ignore")
        return m, f

    def vector(self, m, point):
        """the point in the order of the row labels"""
        out, slots = np.zeros(len(self.labels)), {}
        for v in m.value_vars:
            hits = rows_of(m, v.name, v.name, (), self.labels)
            out[hits] = np.ravel(point[v.name])
            slots[v.name] = (hits, np.shape(point[v.name]))
        return out, slots

    def settle(self, what, got, want, tol):
        got, want = float(got), float(want)
        return abs(got - want) > tol * (1 + abs(want)), f"{what} is {got:.8g}, required {want:.8g}"

    def mean(self, s, k):
        model, idata, g, point = self.fit(s)
        m, f = self.space(model)
        x, _ = self.vector(m, point)
        return self.settle(f"the mean of {self.labels[k]}", idata.fit["mean_vector"].values[k], x[k], 1e-6)

    def curvature(self, s, i, j):
        model, idata, g, point = self.fit(s)
        m, f = self.space(model)
        x, slots = self.vector(m, point)

        def at(y):
            return -float(f({n: y[h].reshape(sh) for n, (h, sh) in slots.items()}))
        h = 1e-3
        p, q = np.eye(len(x))[i] * h, np.eye(len(x))[j] * h
        want = (at(x + p + q) - at(x + p - q) - at(x - p + q) + at(x - p - q)) / (4 * h * h)
        cov = idata.fit["covariance_matrix"].values - JITTER * np.eye(len(x))
        got = np.linalg.pinv(cov)[i, j]
        bad, text = self.settle(f"entry {self.labels[i]},{self.labels[j]} of the inverse covariance", got, want, 2e-2)
        return bad, text + f" at {dict(zip(self.labels, np.round(x, 4).tolist()))}"

    def posterior(self, s, name, c, d, i):
        model, idata, g, point = self.fit(s)
        z = np.asarray(g.calls[0][2]).reshape(self.args[1], self.args[2], len(self.labels))[c, d]
        m, _ = self.space(model)
        vals = {v.name: z[rows_of(m, v.name, v.name, (), self.labels)].reshape(np.shape(point[v.name])) for v in m.value_vars}
        with quiet():
            want = m.compile_fn(m.replace_rvs_by_values([m[name]]), inputs=m.value_vars, on_unused_input="ignore")(vals)[0]
        got = idata.posterior[name].values[c, d]
        return self.settle(f"{name}{list(i)} of draw {c},{d}", np.asarray(got)[i], np.asarray(want)[i], 1e-6)


def cases(tier):
    out = []
    for name in models():
        for un in (False, True):
            out.append((f"{name}-{'unconstrained' if un else 'original'}", lambda S, name=name, un=un: run(S, name, un)))
    out.append(("dispatch", lambda S: run(S, "scale-first", False, outside=True, dispatch=True)))
    out.append(("raw", lambda S: run(S, "scale-first", True, return_raw=True)))
    out.append(("one-one-chain", lambda S: run(S, "one", False, 1, 3)))
    out.append(("one-one-draw", lambda S: run(S, "one", True, 1, 1)))
    for name in ("scale-first", "dims"):
        for un in (False, True):
            tag = "unconstrained" if un else "original"
            out.append((f"{name}-{tag}-one-chain", lambda S, name=name, un=un: run(S, name, un, 1, 3)))
            out.append((f"{name}-{tag}-one-draw", lambda S, name=name, un=un: run(S, name, un, 2, 1)))
            out.append((f"{name}-{tag}-given-model", lambda S, name=name, un=un: run(S, name, un, outside=True)))
            out.append((f"{name}-{tag}-untransformed-report", lambda S, name=name, un=un: run(S, name, un, include_transformed=False)))
    return out
