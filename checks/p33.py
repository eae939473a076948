TITLE = "B-spline interpolation is the clamped uniform B-spline of its inputs"
ASSUMPTIONS = ["real arithmetic; scipy.interpolate.BSpline is a stand-in that evaluates the spline of the given knots, coefficients and degree by de Boor's recursion",
               "evaluation points lie in [0, 1]; sparse matrices are dense ones in the symbolic run"]
import contextlib

import numpy as np
import pytensor
import pytensor.tensor as pt
import scipy.interpolate
import scipy.sparse

from checks.core import quiet
from checks.fits import is_sym, sym
from vlib import alg, ptsym, smt
from vlib.alg import T
from vlib.harness import GraphReal

real_spline, real_csr = scipy.interpolate.BSpline, scipy.sparse.csr_matrix


class Spline:
    """scipy.interpolate.BSpline on terms: the polynomial piece of the base interval that holds the point"""

    def __init__(self, t, c, k, extrapolate=True, axis=0):
        assert axis == 0
        self.t, self.c, self.k = np.asarray(t), np.asarray(c), int(k)
        self.real = real_spline(t, c, k, extrapolate=extrapolate)

    def __call__(self, x, nu=0, extrapolate=None):
        if not is_sym(np.asarray(x)):
            return self.real(x)
        assert nu == 0
        x = np.asarray(x, dtype=object)
        out = np.empty((*x.shape, *self.c.shape[1:]), dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = self.at(T(x[i]))
        return sym(out)

    def at(self, x):
        t, k, n = self.t, self.k, len(self.t) - self.k - 1
        j = k
        while j < n - 1 and bool(alg.ge(x, T(float(t[j + 1])))):
            j += 1
        d = [np.array([T(e) for e in np.ravel(self.c[j - k + i])], dtype=object).reshape(self.c.shape[1:]) for i in range(k + 1)]
        for r in range(1, k + 1):
            for i in range(k, r - 1, -1):
                lo, hi = T(float(t[i + j - k])), T(float(t[i + 1 + j - r]))
                a = (x - lo) / (hi - lo)
                d[i] = np.array([(T(1) - a) * u + a * v for u, v in zip(d[i - 1].ravel(), d[i].ravel())], dtype=object).reshape(d[i].shape)
        return d[k]


@contextlib.contextmanager
def on_terms():
    def csr(x, *a, **k):
        return np.asarray(x) if is_sym(np.asarray(x)) else real_csr(x, *a, **k)

    scipy.interpolate.BSpline, scipy.sparse.csr_matrix = Spline, csr
    try:
        yield
    finally:
        scipy.interpolate.BSpline, scipy.sparse.csr_matrix = real_spline, real_csr


def perform(ev, op, ins, node):
    out = [[None]]
    with on_terms():
        op.perform(node, [sym(ins[0]) if is_sym(np.asarray(ins[0])) else sym(ptsym.to_obj(ins[0])), *(np.asarray(int(np.asarray(i)[()])) for i in ins[1:])], out)
    return [np.asarray(out[0][0], dtype=object)]


def product(ev, op, ins, node):
    a, b = (np.asarray(i, dtype=object) for i in ins)
    return [np.asarray(ptsym.matmul(a, b) if b.ndim == 2 else ptsym.matmul(a, b[:, None])[:, 0], dtype=object)]


def as_is(ev, op, ins, node):
    return [ins[0]]


HOW = {"BSplineBasis": perform, "StructuredDot": product, "Dot": product, "SparseFromDense": as_is, "DenseFromSparse": as_is}


def knots(k, d):
    """clamped, equally spaced, as fractions"""
    m = k - d
    return [T(0)] * d + [T(j) / m for j in range(m + 1)] + [T(1)] * d


def point(n):
    x = [alg.var(f"u{i}") for i in range(n)]
    return np.array(x, dtype=object), [b for u in x for b in (alg.ge(u, 0), alg.le(u, 1))]


def basis(S, k, d, sparse):
    """Marsden's identity, which determines the basis functions of every knot interval, and their support"""
    from pymc_extras.utils.spline import BSplineBasis

    S.bound(f"{k} basis functions of degree {d}, any evaluation point, any parameter of Marsden's identity")
    u = pt.vector("u")
    with quiet(), S.encoding():
        B = BSplineBasis(sparse=sparse)(u, k, d)
    x, ass = point(1)
    tau = alg.var("tau")
    t = knots(k, d)
    S.concrete("sparse", hasattr(B.type, "format") == sparse, f"result of type {B.type}")
    if not sparse:
        with quiet(), S.encoding():
            shape = pytensor.function([u], B.shape, on_unused_input="ignore")(np.array([0.25, 0.5]))
        S.concrete("static-shape", tuple(shape) == (2, k), f"shape of the basis at two points inferred as {tuple(shape)}")
    fn = []

    def real(assign):
        if not fn:
            with quiet():
                fn.append(pytensor.function([u], B))
        r = fn[0](np.array([float(assign.get("u0", 0.5))]))
        return np.asarray(r.todense() if scipy.sparse.issparse(r) else r)[0]

    n = 0
    for path, (kind, res) in smt.Explorer(ass).run(lambda: ptsym.evaluate([B], {u: x}, overrides=HOW)):
        n += 1
        if kind == "raise":
            raise res
        b = np.asarray(res[0], dtype=object)
        if not S.concrete(f"shape@p{n}", b.shape == (1, k), f"basis of shape {b.shape}, required {(1, k)}"):
            return
        b = [T(v) for v in b[0]]
        weight = []
        for i in range(k):
            p = T(1)
            for j in range(1, d + 1):
                p = p * (t[i + j] - tau)
            weight.append(p)

        def marsden(a):
            r = real(a)
            ev = alg.NumEval({"tau": 0.25} | a)
            got, want = sum(v * float(ev(p)) for v, p in zip(r, weight)), float(ev(T(x[0] - tau) ** d))
            return abs(got - want) > 1e-8 * (1 + abs(want)), f"basis {r.tolist()} at {a.get('u0')}: Marsden's identity gives {got}, required {want}"

        S.equal(f"marsden@p{n}", sum((v * p for v, p in zip(b, weight)), T(0)), T(x[0] - tau) ** d, path, marsden, {"u0": (0.0, 1.0)})
        for i in range(k):
            inside = alg.band(alg.le(t[i], x[0]), alg.le(x[0], t[i + d + 1]))

            def support(a, i=i):
                r, v = real(a), float(a.get("u0", 0.5))
                lo, hi = float(t[i].const()), float(t[i + d + 1].const())
                return abs(r[i]) > 1e-9 and not lo <= v <= hi, f"basis function {i} is {r[i]} at {v}, outside [{lo}, {hi}]"

            S.prove(f"support[{i}]@p{n}", alg.bor(inside, alg.eq(b[i], T(0))), path, support, {"u0": (0.0, 1.0)})
            S.prove(f"positive[{i}]@p{n}", alg.ge(b[i], T(0)), path, lambda a, i=i: (real(a)[i] < -1e-12, f"basis function {i} is {real(a)[i]} at {a.get('u0')}"), {"u0": (0.0, 1.0)})


def interpolation(S, k, d, sparse, cols, points):
    """the combination of the coefficients with the weights of the basis"""
    from pymc_extras.utils.spline import bspline_interpolation

    S.bound(f"{k} coefficients{f' in {cols} columns' if cols else ''} of degree {d}, {points}")
    u = pt.vector("u")
    c = pt.matrix("c", shape=(k, cols)) if cols else pt.vector("c", shape=(k,))
    kw = {} if d == 3 else {"degree": d}
    if not sparse:
        kw["sparse"] = False
    n = int(points[2:]) if points.startswith("n=") else 2
    with quiet(), S.encoding():
        out = bspline_interpolation(c, n=n, **kw) if points.startswith("n=") else bspline_interpolation(c, eval_points=u, **kw)
    C = alg.array("c", (k, cols) if cols else (k,))
    givens, ass = {c: C}, []
    if points.startswith("n="):
        x = np.array([T(i) / (n - 1) if n > 1 else T(0) for i in range(n)], dtype=object)
    else:
        x, ass = point(n)
        givens[u] = x

    def want():
        t = np.array([float(v.const()) for v in knots(k, d)])
        s = Spline(t, np.eye(k), d)
        W = np.array([s.at(T(v)) for v in x], dtype=object)
        return [product(None, None, [W, C], None)[0]]

    S.graph("value", [out], givens, want, ass, labels=["value"], overrides=HOW, ranges={f"u{i}": (0.0, 1.0) for i in range(n)}, tol=1e-6)


def grid(S, sparse):
    """bspline_basis(n, k): the basis at n equally spaced points"""
    from pymc_extras.utils.spline import bspline_basis

    S.bound("n of 2, 3 and 5 equally spaced points, 4 and 5 functions of degrees 1, 2 and 3")
    for n, k, d in ((2, 4, 3), (3, 5, 3), (5, 4, 2), (3, 3, 1)):
        with quiet(), S.encoding():
            B = bspline_basis(n, k, sparse=sparse) if d == 3 else bspline_basis(n, k, d, sparse=sparse)
        s = Spline(np.array([float(v.const()) for v in knots(k, d)]), np.eye(k), d)
        c = pt.vector("c", shape=(k,))
        import pytensor.sparse as ps

        out = ps.dot(B, c) if sparse else pt.dot(B, c)
        C = alg.array("c", (k,))
        S.graph(f"{n},{k},{d}", [out], {c: C}, lambda: [product(None, None, [np.array([s.at(T(i) / (n - 1)) for i in range(n)], dtype=object), C], None)[0]], labels=["value"], overrides=HOW, tol=1e-6)


def refused(S):
    from pymc_extras.utils.spline import BSplineBasis, bspline_interpolation

    S.bound("points given twice, not at all, not as a vector of floats; sizes that are not integers")
    c = pt.vector("c", shape=(5,))
    tries = {
        "both": (ValueError, lambda: bspline_interpolation(c, n=3, eval_points=np.array([0.0, 0.5]))),
        "neither": (ValueError, lambda: bspline_interpolation(c)),
        "matrix": (TypeError, lambda: BSplineBasis()(np.zeros((2, 2)), 5, 3)),
        "integers": (TypeError, lambda: BSplineBasis()(np.array([0, 1]), 5, 3)),
        "size": (TypeError, lambda: BSplineBasis()(np.array([0.0, 1.0]), 5.5, 3)),
        "degree": (TypeError, lambda: BSplineBasis()(np.array([0.0, 1.0]), 5, 2.5)),
        "sparse": (TypeError, lambda: BSplineBasis(sparse="yes")),
    }
    for name, (error, f) in tries.items():
        try:
            f()
            ok = False
        except error:
            ok = True
        S.concrete(name, ok, f"{name}: accepted")


def cases(tier):
    out = []
    for d in range(4):
        for m in (1, 2, 4) + ((8,) if tier == "thorough" else ()):
            out.append((f"basis/degree {d}, {m} intervals", lambda S, k=m + d, d=d, m=m: basis(S, k, d, m % 2 == 0)))
    for d, m, sparse, cols, pts in ((3, 1, True, 0, "any points"), (3, 2, False, 2, "any points"), (2, 2, True, 2, "any points"), (1, 4, False, 0, "any points"),
                                    (3, 2, True, 0, "n=3"), (3, 4, False, 2, "n=5"), (2, 1, True, 2, "n=3"), (3, 1, False, 0, "n=1"), (0, 2, True, 0, "n=2")):
        out.append((f"interpolation/{'sparse' if sparse else 'dense'} degree {d}, {m} intervals, {cols or 'no'} columns, {pts}", lambda S, a=(m + d, d, sparse, cols, pts): interpolation(S, *a)))
    return out + [("grid/sparse", lambda S: grid(S, True)), ("grid/dense", lambda S: grid(S, False)), ("refused", refused)]
