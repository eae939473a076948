TITLE = "Latent GP approximations have the covariance and mean they stand for"
ASSUMPTIONS = ["real arithmetic; eigenvectors are arbitrary numbers returned by a stand-in for the eigendecomposition",
               "the kernel is an arbitrary symmetric matrix over the points (Cholesky pivots positive)"]
import contextlib

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from checks.fits import quiet
from vlib import alg, ptsym, smt
from vlib.alg import T

NPTS = 6
JIT = 2.0**-10


class Kernel:
    """covariance over numbered points: entry (i, j) of an arbitrary symmetric matrix"""

    def __init__(self, K):
        self.K = K

    def __call__(self, X, Xs=None, diag=False):
        i = np.asarray(X)[:, 0].astype(int)
        j = i if Xs is None else np.asarray(Xs)[:, 0].astype(int)
        return self.K[i, i] if diag else self.K[i][:, j]

    def full(self, X, Xs=None):
        return self(X, Xs)

    def diag(self, X):
        return self(X, diag=True)


class Mean:
    def __init__(self, m):
        self.m = m

    def __call__(self, X):
        return self.m[np.asarray(X)[:, 0].astype(int)]


def points(ix):
    return np.array(ix, dtype=float)[:, None]


def kmat():
    k = np.empty((NPTS, NPTS), dtype=object)
    for i in range(NPTS):
        for j in range(NPTS):
            k[i, j] = alg.var(f"k{min(i, j)}{max(i, j)}")
    return k


def mvec():
    return np.array([alg.var(f"m{i}") for i in range(NPTS)], dtype=object)


def solve(a, b):
    from checks.fits import inverse

    return inverse(a) @ b


def numbers(s):
    rng = np.random.default_rng(3)
    b = rng.normal(size=(NPTS, NPTS))
    k = b @ b.T + NPTS * np.eye(NPTS)
    m = np.array([s.get(f"m{i}", 0.2 * i - 0.4) for i in range(NPTS)])
    return k, m


def close(what, got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return True, f"{what} has shape {got.shape}, required {want.shape}"
    off = np.abs(got - want)
    k = np.unravel_index(np.argmax(off), off.shape) if off.size else ()
    return bool(off[k] > 1e-6 * (1 + abs(want[k]))), f"{what}{list(k)} is {got[k]:.8g}, required {want[k]:.8g}"


def build_projected(X, Xu, Xnew, kw, K=None, m=None, numeric=None):
    from pymc_extras.gp.latent_approx import ProjectedProcess

    with pm.Model(coords={"new": np.arange(len(Xnew))}) as model:
        gp = ProjectedProcess(mean_func=Mean(m), cov_func=Kernel(K))
        f = gp.prior("f", points(X), X_inducing=points(Xu), jitter=JIT)
        fs = gp.conditional("fs", points(Xnew), jitter=2 * JIT, **kw)
    return model, gp, f, fs


def moments(rv):
    """mean and covariance of a multivariate normal variable"""
    op = rv.owner.op
    assert type(op).__name__ == "MvNormalRV", op
    return op.dist_params(rv.owner)


def projected(S, X, Xu, Xnew, dims):
    S.bound(f"{len(X)} points, {len(Xu)} inducing, {len(Xnew)} new; arbitrary kernel and mean")
    kw = {"dims": "new"} if dims else {}

    def body():
        K, m = pt.matrix("K", shape=(NPTS, NPTS)), pt.vector("m", shape=(NPTS,))
        with quiet(), S.encoding():
            model, gp, f, fs = build_projected(X, Xu, Xnew, kw, K, m)
        base = [v for v in model.free_RVs if v is not fs]
        [v] = base
        z = np.array([alg.var(f"z{i}") for i in range(len(Xu))], dtype=object)
        kv, mv = kmat(), mvec()
        law = ptsym.evaluate(list(v.owner.op.dist_params(v.owner)), {})
        u, fx, mu, cov = ptsym.evaluate([model["f_u"], f, *moments(fs)], {K: kv, m: mv, v: z})
        return model, v, law, z, kv, mv, u, fx, mu, cov, fs

    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        if kind == "raise":
            raise res
        model, v, law, z, kv, mv, u, fx, mu, cov, fs = res
        real = RealProjected(X, Xu, Xnew, kw)
        standard(S, v, law, len(Xu))
        S.concrete("names", {x.name for x in model.free_RVs} - {v.name} == {"fs"} and {"f", "f_u"} <= set(model.named_vars), f"variables {sorted(model.named_vars)}")
        S.concrete("dims", model.named_vars_to_dims.get("fs") == (("new",) if dims else None), f"conditional has dims {model.named_vars_to_dims.get('fs')}")
        kuu = kv[np.ix_(Xu, Xu)] + np.array([[T(JIT) if i == j else T(0) for j in range(len(Xu))] for i in range(len(Xu))], dtype=object)
        A = np.array([[alg.diff(T(a), b) for b in z] for a in u], dtype=object)
        zero = [T(a) - sum((A[i, j] * z[j] for j in range(len(z))), T(0)) for i, a in enumerate(u)]
        for i in range(len(Xu)):
            S.equal(f"inducing/linear[{i}]", zero[i], T(0), path, real.inducing)
            for j in range(i + 1):
                S.equal(f"inducing/covariance[{i},{j}]", sum((A[i, k] * A[j, k] for k in range(len(z))), T(0)), kuu[i, j], path, real.inducing)
        w = solve(kuu, np.array([T(a) for a in u], dtype=object))
        want = mv[list(X)] + kv[np.ix_(X, Xu)] @ w
        for i in range(len(X)):
            S.equal(f"prior[{i}]", T(fx[i]), T(want[i]), path, real.prior)
        want = mv[list(Xnew)] + kv[np.ix_(Xnew, Xu)] @ w
        kinv = solve(kuu, kv[np.ix_(Xu, Xnew)])
        wc = kv[np.ix_(Xnew, Xnew)] - kv[np.ix_(Xnew, Xu)] @ kinv
        for i in range(len(Xnew)):
            S.equal(f"conditional/mean[{i}]", T(mu[i]), T(want[i]), path, real.mean)
            for j in range(i + 1):
                S.equal(f"conditional/covariance[{i},{j}]", T(cov[i, j]), wc[i, j] + (T(2 * JIT) if i == j else T(0)), path, real.covariance)


def standard(S, v, law, n):
    S.concrete("normals", type(v.owner.op).__name__ == "NormalRV" and v.type.shape == (n,), f"base variable {v.owner.op} of shape {v.type.shape}, required {n} normals")
    mu, sd = (np.asarray(a, dtype=object) for a in law)
    S.concrete("standard", all(T(x).is_zero() for x in mu.ravel()) and all((T(x) - 1).is_zero() for x in sd.ravel()), "base normals are not standard")


def factorized(f):
    """the required covariances can be factorized at these numbers, so the code's must be too"""

    def g(self, s):
        try:
            return f(self, s)
        except np.linalg.LinAlgError as e:
            return True, f"the real code cannot factorize its covariance: {e}"
    return g


class RealProjected:
    def __init__(self, X, Xu, Xnew, kw):
        self.X, self.Xu, self.Xn, self.kw = X, Xu, Xnew, kw

    def setup(self, s):
        k, m = numbers(s)
        with quiet():
            model, gp, f, fs = build_projected(self.X, self.Xu, self.Xn, self.kw, pt.as_tensor(k), pt.as_tensor(m))
            [v] = [x for x in model.free_RVs if x is not fs]
            z = np.array([s.get(f"z{i}", 0.5 - 0.3 * i) for i in range(len(self.Xu))])
            fn = pm.compile_pymc([v], [model["f_u"], f, *moments(fs)], on_unused_input="ignore")
            u, fx, mu, cov = fn(z)
            A = np.stack([fn(e)[0] for e in np.eye(len(z))], axis=1)
        kuu = k[np.ix_(self.Xu, self.Xu)] + JIT * np.eye(len(z))
        return k, m, u, fx, mu, cov, A, kuu, np.linalg.solve(kuu, u)

    @factorized
    def inducing(self, s):
        k, m, u, fx, mu, cov, A, kuu, w = self.setup(s)
        return close("the inducing covariance ", A @ A.T, kuu)

    @factorized
    def prior(self, s):
        k, m, u, fx, mu, cov, A, kuu, w = self.setup(s)
        return close("the prior ", fx, m[list(self.X)] + k[np.ix_(self.X, self.Xu)] @ w)

    @factorized
    def mean(self, s):
        k, m, u, fx, mu, cov, A, kuu, w = self.setup(s)
        return close("the conditional mean ", mu, m[list(self.Xn)] + k[np.ix_(self.Xn, self.Xu)] @ w)

    @factorized
    def covariance(self, s):
        k, m, u, fx, mu, cov, A, kuu, w = self.setup(s)
        ksu = k[np.ix_(self.Xn, self.Xu)]
        return close("the conditional covariance ", cov, k[np.ix_(self.Xn, self.Xn)] - ksu @ np.linalg.solve(kuu, ksu.T) + 2 * JIT * np.eye(len(self.Xn)))


@contextlib.contextmanager
def eigendecomposition(n, vals=None):
    """eigh returns given or arbitrary eigenvalues, ascending, and arbitrary vectors"""
    keep = pt.linalg.eigh, pt.nlinalg.eigh
    log = []

    def eigh(a, *args, **k):
        s = pt.vector("eigs", shape=(n,)) if vals is None else pt.constant(np.array(vals, dtype=float))
        U = pt.matrix("vecs", shape=(n, n))
        log.append((a, s, U))
        return [s, U]
    pt.linalg.eigh = pt.nlinalg.eigh = eigh
    try:
        yield log
    finally:
        pt.linalg.eigh, pt.nlinalg.eigh = keep


def build_kl(X, Xnew, opts, K, m):
    from pymc_extras.gp.latent_approx import KarhunenLoeveExpansion

    with pm.Model(coords={"new": np.arange(len(Xnew))}) as model:
        gp = KarhunenLoeveExpansion(mean_func=Mean(m), cov_func=Kernel(K), **opts)
        f = gp.prior("f", points(X), jitter=JIT)
        fs = gp.conditional("fs", points(Xnew), jitter=2 * JIT)
    return model, gp, f, fs


def count(opts, vals):
    """the fewest leading eigenvalues that explain more than the limit"""
    if opts.get("variance_limit") is None:
        return opts["n_eigs"]
    lead = np.cumsum(np.sort(vals)[::-1]) / np.sum(vals)
    return len(vals) if opts["variance_limit"] == 1 else int(np.argmax(lead > opts["variance_limit"])) + 1


def karhunen(S, X, Xnew, opts, vals=None):
    n = len(X)
    S.bound(f"{n} points, {len(Xnew)} new, {opts}, eigenvalues {vals or 'arbitrary'}; arbitrary kernel, mean and eigenvectors")
    keep = count(opts, vals)

    def body():
        K, m = pt.matrix("K", shape=(NPTS, NPTS)), pt.vector("m", shape=(NPTS,))
        with quiet(), eigendecomposition(n, vals) as log, S.encoding():
            model, gp, f, fs = build_kl(X, Xnew, opts, K, m)
        [v] = [x for x in model.free_RVs if x is not fs]
        size = ptsym.evaluate([v.shape[0]], {})[0] if v.type.shape[0] is None else v.type.shape[0]
        size = int(np.asarray(size))
        z = np.array([alg.var(f"z{i}") for i in range(size)], dtype=object)
        kv, mv = kmat(), mvec()
        lam = np.array([alg.var(f"e{i}") for i in range(n)] if vals is None else [T(float(x)) for x in vals], dtype=object)
        if vals is None:
            lam = np.cumsum(np.array([alg.exp(alg.var(f"e{i}")) for i in range(n)], dtype=object))
        vec = np.array([[alg.var(f"v{i}{j}") for j in range(n)] for i in range(n)], dtype=object)
        giv = {K: kv, m: mv, v: z}
        for _, s, U in log:
            giv[U] = vec
            if vals is None:
                giv[s] = lam
        law = ptsym.evaluate(list(v.owner.op.dist_params(v.owner)), giv)
        args = ptsym.evaluate([a for a, _, _ in log], giv)
        mu_e, cov_e = moments(fs)
        fx, mu, cov = ptsym.evaluate([f, mu_e, cov_e], giv)
        return model, v, law, z, kv, mv, lam, vec, args, fx, mu, cov

    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        if kind == "raise":
            raise res
        model, v, law, z, kv, mv, lam, vec, args, fx, mu, cov = res
        real = RealKL(X, Xnew, opts)
        S.concrete("eigenvalues kept", len(z) == keep, f"{len(z)} eigenvalues kept, required {keep}")
        if len(z) != keep:
            return
        standard(S, v, law, v.type.shape[0])
        S.concrete("names", {x.name for x in model.free_RVs} - {v.name} == {"fs"} and "f" in model.named_vars, f"variables {sorted(model.named_vars)}")
        S.concrete("decompositions", len(args) == 1 and np.shape(args[0]) == (n, n), f"decomposed {[np.shape(a) for a in args]}")
        for i in range(n):
            for j in range(i + 1):
                S.equal(f"decomposed[{i},{j}]", T(args[0][i, j]), kv[X[i], X[j]] + (T(JIT) if i == j else T(0)), path, real.prior)
        top = list(range(n - keep, n))
        # a linear map of the normals whose covariance is the leading part of the kernel
        A = np.array([[alg.diff(T(a), b) for b in z] for a in fx], dtype=object)
        for i in range(n):
            rest = T(fx[i]) - sum((A[i, j] * z[j] for j in range(len(z))), T(0))
            S.equal(f"prior/mean[{i}]", rest, mv[X[i]], path, real.prior)
            for j in range(i + 1):
                want = sum((vec[i, k] * lam[k] * vec[j, k] for k in top), T(0))
                S.equal(f"prior/covariance[{i},{j}]", sum((A[i, k] * A[j, k] for k in range(len(z))), T(0)), want, path, real.covariance)
        P = np.array([[sum((vec[i, k] * vec[j, k] / lam[k] for k in top), T(0)) for j in range(n)] for i in range(n)], dtype=object)
        ksx = kv[np.ix_(Xnew, X)]
        dev = np.array([T(a) - mv[X[i]] for i, a in enumerate(fx)], dtype=object)
        want = mv[list(Xnew)] + ksx @ (P @ dev)
        wc = kv[np.ix_(Xnew, Xnew)] - ksx @ P @ ksx.T
        for i in range(len(Xnew)):
            S.equal(f"conditional/mean[{i}]", T(mu[i]), T(want[i]), path, real.cmean)
            for j in range(i + 1):
                S.equal(f"conditional/covariance[{i},{j}]", T(cov[i, j]), wc[i, j] + (T(2 * JIT) if i == j else T(0)), path, real.ccov)


class RealKL:
    def __init__(self, X, Xnew, opts):
        self.X, self.Xn, self.opts = X, Xnew, opts

    def setup(self, s):
        k, m = numbers(s)
        vals, vecs = np.linalg.eigh(k[np.ix_(self.X, self.X)] + JIT * np.eye(len(self.X)))
        with quiet():
            model, gp, f, fs = build_kl(self.X, self.Xn, self.opts, pt.as_tensor(k), pt.as_tensor(m))
            [v] = [x for x in model.free_RVs if x is not fs]
            fn = pm.compile_pymc([v], [f, *moments(fs)], on_unused_input="ignore")
            n = count(self.opts, vals)
            z = np.array([s.get(f"z{i}", 0.5 - 0.3 * i) for i in range(n)])
            fx, mu, cov = fn(z)
            at = fn(0 * z)[0]
            A = np.stack([fn(e)[0] - at for e in np.eye(n)], axis=1)
        U, lam = vecs[:, len(vals) - n:], vals[len(vals) - n:]
        return k, m, fx, mu, cov, at, A, U, lam

    @factorized
    def prior(self, s):
        k, m, fx, mu, cov, at, A, U, lam = self.setup(s)
        return close("the prior mean ", at, m[list(self.X)])

    @factorized
    def covariance(self, s):
        k, m, fx, mu, cov, at, A, U, lam = self.setup(s)
        return close("the prior covariance ", A @ A.T, U * lam @ U.T)

    @factorized
    def cmean(self, s):
        k, m, fx, mu, cov, at, A, U, lam = self.setup(s)
        return close("the conditional mean ", mu, m[list(self.Xn)] + k[np.ix_(self.Xn, self.X)] @ (U / lam) @ U.T @ (fx - m[list(self.X)]))

    @factorized
    def ccov(self, s):
        k, m, fx, mu, cov, at, A, U, lam = self.setup(s)
        ksx = k[np.ix_(self.Xn, self.X)]
        return close("the conditional covariance ", cov, k[np.ix_(self.Xn, self.Xn)] - ksx @ (U / lam) @ U.T @ ksx.T + 2 * JIT * np.eye(len(self.Xn)))


def cases(tier):
    out = [("projected-1", lambda S: projected(S, [0, 1], [2], [3], False)),
           ("projected-2", lambda S: projected(S, [0, 1], [2, 3], [4], True)),
           ("projected-shared", lambda S: projected(S, [0, 1, 2], [0, 2], [1, 3], False))]
    for opts in ({"n_eigs": 1}, {"n_eigs": 2}, {"n_eigs": 3}):
        out.append((f"expansion-{opts['n_eigs']}", lambda S, opts=opts: karhunen(S, [0, 1, 2], [3], opts)))
    out.append(("expansion-new-2", lambda S: karhunen(S, [0, 1], [2, 3], {"n_eigs": 1})))
    for i, (lim, vals) in enumerate([(0.9, [0.5, 1.5, 8.0, 30.0]), (0.5, [0.5, 1.5, 8.0, 30.0]), (0.99, [0.5, 1.5, 8.0, 30.0]), (1, [1.0, 2.0, 4.0]), (0.6, [1.0, 1.0, 1.0])]):
        out.append((f"expansion-limit-{lim}-{i}", lambda S, lim=lim, vals=vals: karhunen(S, list(range(len(vals))), [4], {"variance_limit": lim}, vals)))
    return out
