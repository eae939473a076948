TITLE = "find_MAP optimizes and reports the model's own density"
ASSUMPTIONS = ["real arithmetic; the optimizer is a stand-in that reports an arbitrary point, so nothing is claimed about convergence",
               "the oracle is PyMC's own log density without Jacobian terms; its derivatives are taken symbolically by the check",
               "gradients computed by JAX are not encoded"]
import numpy as np
import pytensor.tensor as pt
from pymc.initial_point import make_initial_point_fn

from checks.fits import (
    models,
    optimizer,
    point_values,
    quiet,
    sym,
    symbolic_functions,
)
from vlib import alg, ptsym, smt
from vlib.alg import T

METHODS = {"BFGS": {}, "trust-ncg": {}, "Newton-CG": {"use_hess": True}, "nelder-mead": {}, "hess": {"method": "trust-exact", "use_grad": True, "use_hess": True}, "hessp": {"method": "trust-ncg", "use_grad": True, "use_hessp": True, "use_hess": False}}


def run(S, name, how, outside=False):
    from pymc_extras.inference.find_map import find_MAP

    bound, build = models()[name]
    S.bound(bound + "; every point of the unconstrained space")
    kw = {"method": how} | METHODS[how]
    real = Real(build, kw)

    def body():
        with quiet(), symbolic_functions(), optimizer() as opt:
            model = build()
            with S.encoding():
                if outside:
                    point = find_MAP(model=model, progressbar=False, random_seed=1, **kw)
                else:
                    with model:
                        point = find_MAP(progressbar=False, random_seed=1, **kw)
            [c] = opt.calls
            x = c["x"]
            with S.encoding():
                val = c["f"](x)
                hess = c["hess"](x) if c.get("hess") is not None else None
                v = sym(np.array([alg.var(f"v{i}") for i in range(len(x))], dtype=object))
                hessp = c["hessp"](x, v) if c.get("hessp") is not None else None
        fused = isinstance(val, list | tuple)
        loss, grad = (val[0], val[1]) if fused else (val, None)
        if grad is None and c.get("jac") not in (None, True, False):
            with S.encoding():
                grad = c["jac"](x)
        vals = point_values(model, point)
        names = {v.name for v in model.value_vars} | {v.name for v in model.free_RVs} | {v.name for v in model.deterministics}
        out_names = sorted(names - {v.name for v in model.value_vars})
        with quiet():
            logp = model.logp(jacobian=False)
            out = [model.replace_rvs_by_values([model[n]])[0] for n in out_names]
        [target], want = ptsym.evaluate([logp], vals), ptsym.evaluate(out, vals)
        target = -T(np.asarray(target, dtype=object)[()])
        d = [alg.diff(target, t) for t in x]
        dd = [[alg.diff(u, t) for t in x] for u in d] if hess is not None or hessp is not None else None
        return model, point, names, vals, out_names, want, target, d, dd, x, v, loss, grad, hess, hessp, c

    n = 0
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(body):
        n += 1
        if kind == "raise":
            raise res
        obligations(S, how, kw, f"@p{n}" if n > 1 else "", path, real, *res)


def obligations(S, how, kw, tag, path, real, model, point, names, vals, out_names, want, target, d, dd, x, v, loss, grad, hess, hessp, c):
    ranges = {f"x{i}": (-1.5, 1.5) for i in range(len(x))}
    # everything reported
    S.concrete("names", set(point) == names, f"reported {sorted(point)}, required {sorted(names)}")
    count = sum(a.size for a in vals.values())
    S.concrete("size", len(x) == count, f"optimizes {len(x)} numbers, the model has {count}")
    with quiet():
        start = model.initial_point(random_seed=1)
    S.equal(f"objective{tag}", T(np.asarray(loss, dtype=object)[()]), target, path, lambda a: real.objective(a, len(x)), ranges)
    want_grad = kw.get("use_grad") is not False and how != "nelder-mead"
    S.concrete("gradient/given", (grad is not None) == want_grad, f"gradient {'not ' if grad is None else ''}given to {kw['method']}")
    if grad is not None:
        g = np.asarray(grad, dtype=object).reshape(-1)
        S.concrete("gradient/size", len(g) == len(x), f"gradient of {len(g)} entries")
        for i in range(len(x)):
            S.equal(f"gradient[{i}]{tag}", g[i], d[i], path, lambda a, i=i: real.gradient(a, len(x), i), ranges)
    if hess is not None:
        h = np.asarray(hess, dtype=object).reshape(len(x), len(x))
        for i in range(len(x)):
            for j in range(len(x)):
                S.equal(f"hessian[{i},{j}]{tag}", h[i, j], dd[i][j], path, lambda a, i=i, j=j: real.hessian(a, len(x), i, j), ranges)
    if hessp is not None:
        h = np.asarray(hessp, dtype=object).reshape(-1)
        for i in range(len(x)):
            w = sum((dd[i][j] * v[j] for j in range(len(x))), T(0))
            S.equal(f"hessian-vector[{i}]{tag}", h[i], w, path, lambda a, i=i: real.product(a, len(x), i), ranges | {f"v{k}": (-1.5, 1.5) for k in range(len(x))})
    for n, w in zip(out_names, want):
        w, g = np.asarray(w, dtype=object), np.asarray(point[n], dtype=object)
        S.concrete(f"report/{n}/shape", w.shape == g.shape, f"{n} reported with shape {g.shape}, required {w.shape}")
        if w.shape == g.shape:
            for i in np.ndindex(*w.shape):
                S.equal(f"report/{n}{list(i) if i else ''}{tag}", T(g[i]), T(w[i]), path, lambda a, n=n, i=i: real.report(a, len(x), n, i), ranges)
    # the start: the model's initial point, through the same arrangement
    ev = alg.NumEval({f"x{i}": c["x0"][i] for i in range(len(x))})
    for v, a in vals.items():
        got = np.array([float(ev(T(t))) for t in a.ravel()]).reshape(a.shape)
        S.concrete(f"start/{v.name}", np.allclose(got, start[v.name]), f"starts {v.name} at {got}, the initial point is {start[v.name]}")


class Real:
    """the same call on the compiled code; derivatives are finite differences of the model's own density"""

    def __init__(self, build, kw):
        self.build, self.kw, self.c = build, kw, None

    def setup(self):
        from pymc_extras.inference.find_map import find_MAP

        if self.c is None:
            with quiet(), optimizer() as opt:
                self.model = self.build()
                orig = opt.__class__.__call__

                class Num(type(opt)):
                    def __call__(o, f, x0, *a, **k):
                        r = orig(o, f, x0, *a, **k)
                        r.x = np.asarray(self.at if self.at is not None else x0, dtype=float)
                        return r
                opt.__class__ = Num
                self.at = None
                self.opt, self.find = opt, find_MAP
                with self.model:
                    self.find(progressbar=False, random_seed=1, **self.kw)
                self.c = opt.calls[-1]
                self.logp = self.model.compile_fn(self.model.logp(jacobian=False), inputs=self.model.value_vars, on_unused_input="ignore")
        return self

    def point(self, x):
        with quiet(), optimizer() as opt:
            opt.__class__ = self.opt.__class__
            self.at = x
            with self.model:
                return self.find(progressbar=False, random_seed=1, **self.kw)

    def x(self, a, n, key="x"):
        return np.array([a.get(f"{key}{i}", 0.5) for i in range(n)])

    def density(self, x):
        p = self.point(x)
        return -float(self.logp({v.name: p[v.name] for v in self.model.value_vars}))

    def settle(self, what, got, want, x, tol=1e-4):
        got, want = float(got), float(want)
        bad = abs(got - want) > tol * (1 + abs(want))
        return bad, f"{what} is {got:.8g}, required {want:.8g} at {np.round(x, 5).tolist()}"

    def objective(self, a, n):
        x = self.setup().x(a, n)
        r = self.c["f"](x)
        return self.settle("the objective", r[0] if isinstance(r, list | tuple) else r, self.density(x), x)

    def gradient(self, a, n, i):
        x = self.setup().x(a, n)
        e = np.eye(n)[i] * 1e-5
        return self.settle(f"gradient[{i}]", np.ravel(self.c["f"](x)[1])[i], (self.density(x + e) - self.density(x - e)) / 2e-5, x)

    def second(self, x, i, j, h=1e-3):
        n = len(x)
        p, q = np.eye(n)[i] * h, np.eye(n)[j] * h
        f = self.density
        return (f(x + p + q) - f(x + p - q) - f(x - p + q) + f(x - p - q)) / (4 * h * h)

    def hessian(self, a, n, i, j):
        x = self.setup().x(a, n)
        return self.settle(f"hessian[{i},{j}]", np.reshape(self.c["hess"](x), (n, n))[i, j], self.second(x, i, j), x, 1e-2)

    def product(self, a, n, i):
        x, v = self.setup().x(a, n), self.x(a, n, "v")
        return self.settle(f"Hessian-vector product[{i}]", np.ravel(self.c["hessp"](x, v))[i], sum(self.second(x, i, j) * v[j] for j in range(n)), x, 1e-2)

    def report(self, a, n, name, i):
        x = self.setup().x(a, n)
        p = self.point(x)
        want = self.model.compile_fn(self.model.replace_rvs_by_values([self.model[name]]), inputs=self.model.value_vars, on_unused_input="ignore")({v.name: p[v.name] for v in self.model.value_vars})[0]
        return self.settle(f"{name}{list(i)}", np.asarray(p[name])[i], np.asarray(want)[i], x)


def starts(S):
    """initial values given by the user override the default ones, the rest stays"""
    from pymc_extras.inference.find_map import find_MAP

    S.bound("two models, some or all initial values given, in either space (concrete)")
    for name, tries in (("scale-first", [{"mu": 1.5}, {"s": 3.0}, {"s_log__": 0.25, "mu": -1.0}]), ("dims", [{"b": [1.0, 2.0]}, {"s": [0.5, 4.0], "m": 2.0}])):
        for k, init in enumerate(tries):
            with quiet(), symbolic_functions(), optimizer() as opt:
                model = models()[name][1]()
                with model, S.encoding():
                    point = find_MAP("BFGS", initvals=dict(init), progressbar=False, random_seed=1)
            c = opt.calls[0]
            ev = alg.NumEval({f"x{i}": v for i, v in enumerate(c["x0"])})
            got = {n: np.array([float(ev(T(t))) for t in np.asarray(a, dtype=object).ravel()]).reshape(np.shape(a)) for n, a in point.items()}
            base = make_initial_point_fn(model=model, overrides=dict(init), return_transformed=True)(1)
            for n, want in init.items():
                S.concrete(f"{name}-{k}/{n}", np.allclose(got[n], want), f"starts {n} at {got[n]}, given {want}")
            for v in model.value_vars:
                rv = model.values_to_rvs[v].name
                if rv not in init and v.name not in init:
                    S.concrete(f"{name}-{k}/{v.name}", np.allclose(got[v.name], base[v.name]), f"starts {v.name} at {got[v.name]}, default {base[v.name]}")


def functions(S):
    """the public helper that compiles a loss, its derivatives and products over several inputs"""
    from pymc_extras.inference.find_map import scipy_optimize_funcs_from_loss

    S.bound("a loss of a scalar, a vector and a matrix, inputs in three orders; every point and direction")
    for order in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
        a, b, c = pt.dscalar("a"), pt.tensor("b", shape=(2,), dtype="float64"), pt.tensor("c", shape=(2, 2), dtype="float64")
        loss = (a**2 * b[0] + pt.exp(b[1]) * c[0, 1] + (c @ b).sum() * a + c[1, 0] ** 3 * pt.sqrt(1 + a**2))
        ins = [[a, b, c][k] for k in order]
        start = {"a": np.array(0.5), "b": np.ones(2), "c": np.ones((2, 2))}
        with quiet(), symbolic_functions(), S.encoding():
            f, h, hp = scipy_optimize_funcs_from_loss(loss, ins, start, True, True, True)
            x = sym(np.array([alg.var(f"x{i}") for i in range(7)], dtype=object))
            v = sym(np.array([alg.var(f"v{i}") for i in range(7)], dtype=object))
            val, grad = f(x)
            hess, prod = np.asarray(h(x), dtype=object).reshape(7, 7), np.asarray(hp(x, v), dtype=object).reshape(7)
        givens, o = {}, 0
        for i in ins:
            size = int(np.prod(i.type.shape)) if i.ndim else 1
            givens[i] = np.asarray(x[o:o + size], dtype=object).reshape(i.type.shape)
            o += size
        [w] = ptsym.evaluate([loss], givens)
        w = T(np.asarray(w, dtype=object)[()])
        tag = "".join("abc"[k] for k in order)
        ranges = {f"{n}{i}": (-1.5, 1.5) for i in range(7) for n in "xv"}

        def rep(assign, pick, f=None):
            return pick(assign)

        def at(assign):
            return np.array([assign.get(f"x{i}", 0.5) for i in range(7)]), np.array([assign.get(f"v{i}", 0.5) for i in range(7)])

        def near(got, want, what, x):
            return abs(float(got) - float(want)) > 1e-6 * (1 + abs(float(want))), f"{what} is {float(got):.8g}, required {float(want):.8g} at {x.tolist()}"

        def check(label, got, want, real):
            def rep(assign):
                xs, vs = at(assign)
                y = alg.NumEval({f"x{i}": xs[i] for i in range(7)} | {f"v{i}": vs[i] for i in range(7)})(want)
                return near(real(xs, vs), y, label, xs)
            S.equal(f"{tag}/{label}", T(got), want, (), rep, ranges)
        check("value", np.asarray(val, dtype=object)[()], w, lambda xs, vs: f(xs)[0])
        d = [alg.diff(w, x[i]) for i in range(7)]
        for i in range(7):
            check(f"gradient[{i}]", np.asarray(grad, dtype=object).reshape(-1)[i], d[i], lambda xs, vs, i=i: np.ravel(f(xs)[1])[i])
            row = [alg.diff(d[i], x[j]) for j in range(7)]
            for j in range(7):
                check(f"hessian[{i},{j}]", hess[i, j], row[j], lambda xs, vs, i=i, j=j: np.reshape(h(xs), (7, 7))[i, j])
            check(f"product[{i}]", prod[i], sum((row[j] * v[j] for j in range(7)), T(0)), lambda xs, vs, i=i: np.ravel(hp(xs, vs))[i])


def cases(tier):
    out = []
    for name in models():
        hows = METHODS if tier != "quick" or name in ("scale-first", "dims") else ("BFGS", "trust-ncg", "hess")
        for how in hows:
            out.append((f"{name}-{how}", lambda S, name=name, how=how: run(S, name, how)))
    for name in ("scale-first", "data"):
        out.append((f"{name}-given-model", lambda S, name=name: run(S, name, "BFGS", True)))
    out.append(("starts", starts))
    out.append(("functions", functions))
    return out
