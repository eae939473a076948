"""Symbolic execution of PyTensor graphs (the compiler IR pymc_extras builds).

`evaluate(outputs, givens)` interprets the graph op by op over numpy object arrays of exact
symbolic scalars (alg.Term / alg.B).  Shapes and loop lengths are concrete (the bounds of a
check), contents are symbolic.  The graph is produced by running the real code of /repo, so the
encoding is regenerated from the current source on every run.
"""
from __future__ import annotations

import itertools

from fractions import Fraction

import numpy as np
import pytensor
import pytensor.tensor as pt

from pytensor.scalar.basic import ScalarOp
from pytensor.graph.basic import Constant, Variable, io_toposort
from pytensor.compile.sharedvalue import SharedVariable
from pytensor.tensor.subtensor import indices_from_subtensor

from . import alg
from .alg import CTX, NAN, B, Special, T, Term, is_concrete_bool


class Unsupported(NotImplementedError):
    pass


OPS_SEEN = {}
ASSERT_LOG = []

# ---------------------------------------------------------------------------------------------
# helpers on arrays
# ---------------------------------------------------------------------------------------------


def is_obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def to_obj(a):
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    if a.dtype == bool:
        for i in np.ndindex(*a.shape):
            out[i] = bool(a[i])
        return out
    for i in np.ndindex(*a.shape):
        out[i] = T(a[i])
    return out


def arr0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def from_native(a):
    """floats become exact terms; integers and booleans stay native"""
    a = np.asarray(a)
    if a.dtype.kind == "f":
        return to_obj(a)
    if a.dtype.kind == "c":
        raise Unsupported("complex values")
    return a


def concretise_int(x, candidates=None):
    """an int from a possibly symbolic index (forks the exploration over its feasible values)"""
    if isinstance(x, int | np.integer):
        return int(x)
    if is_concrete_bool(x):
        return int(x)
    if isinstance(x, np.ndarray):
        x = x.item() if x.dtype != object else x[()]
        return concretise_int(x, candidates)
    if isinstance(x, B):
        return int(bool(x))
    if isinstance(x, Term):
        if x.is_const():
            return int(x.const())
        if candidates is None:
            raise Unsupported("symbolic index without candidates")
        for v in candidates:
            if bool(alg.eq(x, v)):
                return v
        raise IndexError("index out of bounds on this path")
    raise Unsupported(f"index {x!r}")


def concretise_index_array(a, dim):
    a = np.asarray(a)
    if a.dtype != object:
        return a
    out = np.empty(a.shape, dtype=np.int64)
    cands = list(range(dim)) + list(range(-dim, 0))
    for i in np.ndindex(*a.shape):
        out[i] = concretise_int(a[i], cands)
    return out


def matmul(a, b):
    a, b = to_obj(a), to_obj(b)
    return np.dot(a, b) if a.size and b.size else _empty_dot(a, b)


def _dot(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return arr0(_inner(a, b))
    if a.ndim == 2 and b.ndim == 1:
        return np.array([_inner(a[i], b) for i in range(a.shape[0])], dtype=object).reshape(a.shape[0])
    if a.ndim == 1 and b.ndim == 2:
        return np.array([_inner(a, b[:, j]) for j in range(b.shape[1])], dtype=object).reshape(b.shape[1])
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = _inner(a[i], b[:, j])
    return out


def _inner(u, v):
    if u.shape != v.shape:
        raise ValueError(f"dot shape mismatch {u.shape} {v.shape}")
    s = alg.ZERO
    for x, y in zip(u, v):
        x, y = T(x), T(y)
        if isinstance(x, Term) and not x.num:
            if isinstance(y, Special):
                return NAN
            continue
        if isinstance(y, Term) and not y.num:
            if isinstance(x, Special):
                return NAN
            continue
        s = s + x * y
    return s


def _empty_dot(a, b):
    shp = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
    return to_obj(np.zeros(shp))


dot = _dot


def det(a):
    n = a.shape[0]
    if n == 0:
        return alg.ONE
    if n == 1:
        return T(a[0, 0])
    memo = {}

    def minor(row, cols):
        if row == n:
            return alg.ONE
        k = (row, cols)
        if k in memo:
            return memo[k]
        s = alg.ZERO
        for i, c in enumerate(cols):
            e = T(a[row, c])
            if isinstance(e, Term) and not e.num:
                continue
            t = e * minor(row + 1, cols[:i] + cols[i + 1 :])
            s = s + t if i % 2 == 0 else s - t
        memo[k] = s
        return s

    return minor(0, tuple(range(n)))


def inv(a):
    n = a.shape[0]
    d = det(a)
    if isinstance(d, Term) and not d.num:
        raise ZeroDivisionError("singular matrix")
    di = alg.ONE / d
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(a, j, 0), i, 1)
            c = det(sub) * di
            out[i, j] = c if (i + j) % 2 == 0 else -c
    return out


def solve(a, b):
    """general solve by Gaussian elimination (n > 3) or adjugate"""
    n = a.shape[0]
    if n <= 3:
        return dot(inv(a), b)
    A = to_obj(a).copy()
    X = to_obj(b).copy()
    vec = X.ndim == 1
    if vec:
        X = X[:, None]
    for c in range(n):
        piv = None
        for r in range(c, n):  # prefer constant pivots
            e = A[r, c]
            if e.is_const() and not e.is_zero():
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if not A[r, c].is_zero():
                    piv = r
                    break
        if piv is None:
            raise ZeroDivisionError("singular matrix")
        if piv != c:
            A[[c, piv]] = A[[piv, c]]
            X[[c, piv]] = X[[piv, c]]
        p = alg.ONE / A[c, c]
        for j in range(c, n):
            A[c, j] = A[c, j] * p
        for j in range(X.shape[1]):
            X[c, j] = X[c, j] * p
        for r in range(n):
            if r == c or A[r, c].is_zero():
                continue
            f = A[r, c]
            for j in range(c, n):
                if not A[c, j].is_zero():
                    A[r, j] = A[r, j] - f * A[c, j]
            for j in range(X.shape[1]):
                if not X[c, j].is_zero():
                    X[r, j] = X[r, j] - f * X[c, j]
    return X[:, 0] if vec else X


def cholesky(a):
    n = a.shape[0]
    L = to_obj(np.zeros((n, n)))
    for j in range(n):
        s = T(a[j, j])
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = alg.sqrt(s)
        if n > j + 1:
            iv = alg.ONE / L[j, j]
        for i in range(j + 1, n):
            t = T(a[i, j])
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t * iv
    return L


def solve_triangular(a, b, lower, trans=0, unit_diagonal=False):
    n = a.shape[0]
    A = to_obj(a)
    if trans in (1, 2, "T", "C"):
        A = A.T
        lower = not lower
    X = to_obj(b).copy()
    vec = X.ndim == 1
    if vec:
        X = X[:, None]
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        for c in range(X.shape[1]):
            s = X[i, c]
            for k in range(i) if lower else range(i + 1, n):
                if not (isinstance(A[i, k], Term) and A[i, k].is_zero()):
                    s = s - A[i, k] * X[k, c]
            X[i, c] = s if unit_diagonal else s / A[i, i]
    return X[:, 0] if vec else X


# ---------------------------------------------------------------------------------------------
# scalar ops
# ---------------------------------------------------------------------------------------------
def _isnan(x):
    x = x if isinstance(x, B) else T(x)
    return isinstance(x, Special) and x.kind == "nan"


def _isinf(x):
    x = x if isinstance(x, B) else T(x)
    return isinstance(x, Special) and x.kind in ("inf", "-inf")


def _add(*xs):
    s = T(xs[0])
    for x in xs[1:]:
        s = s + T(x)
    return s


def _mul(*xs):
    s = T(xs[0])
    for x in xs[1:]:
        s = s * T(x)
    return s


def _sign(x):
    x = T(x)
    if isinstance(x, Term) and not x.is_const():
        return alg.ite(alg.gt(x, 0), 1, alg.ite(alg.lt(x, 0), -1, 0))
    return T(alg.sign_of(x))


def _and(*xs):
    return alg.ball(xs)


def _or(*xs):
    return alg.bany(xs)


def _switch(c, a, b):
    return alg.ite(alg.tobool(c), a, b)


def _floor(x):
    x = T(x)
    if x.is_const():
        import math

        return T(math.floor(x.const()))
    return alg.uf("floor", x)


def _ceil(x):
    return -_floor(-T(x))


def _intdiv(a, b):
    return _floor(T(a) / T(b))


def _mod(a, b):
    a, b = T(a), T(b)
    return a - b * _floor(a / b)


def _ufn(name, positive=False):
    def f(*xs):
        if any(_isnan(x) for x in xs):
            return NAN
        return alg.uf(name, *xs, positive=positive)

    return f


def _log1mexp(x):
    return alg.log(alg.ONE - alg.exp(T(x)))


def _erfc(x):
    return alg.ONE - alg.erf(x)


def _erfcx(x):
    # erfcx(x) = exp(x^2) erfc(x)
    x = T(x)
    return alg.exp(x * x) * _erfc(x)


def _gamma(x):
    return alg.exp(alg.gammaln(x))


def _tanh(x):
    e = alg.exp(2 * T(x))
    return (e - 1) / (e + 1)


def _round(x):
    x = T(x)
    if isinstance(x, Special):
        return x
    if x.is_const():
        return T(round(Fraction(x.const())))
    return alg.uf("round", x)


def _clip(x, lo, hi):
    return alg.minimum(alg.maximum(x, lo), hi)


SCALAR = {
    "Add": _add,
    "Mul": _mul,
    "Sub": lambda a, b: T(a) - T(b),
    "TrueDiv": lambda a, b: T(a) / T(b),
    "IntDiv": _intdiv,
    "Mod": _mod,
    "Pow": lambda a, b: alg.power(a, b),
    "Neg": lambda a: -T(a),
    "Reciprocal": lambda a: alg.ONE / T(a),
    "Sqr": lambda a: T(a) * T(a),
    "Sqrt": alg.sqrt,
    "Exp": alg.exp,
    "Exp2": lambda a: alg.exp(T(a) * T(np.log(2.0))),
    "Expm1": lambda a: alg.exp(a) - 1,
    "Log": alg.log,
    "Log2": lambda a: alg.log(a) / T(np.log(2.0)),
    "Log10": lambda a: alg.log(a) / T(np.log(10.0)),
    "Log1p": alg.log1p,
    "Abs": lambda a: alg.absolute(a),
    "Sign": _sign,
    "LT": lambda a, b: alg.lt(a, b),
    "GT": lambda a, b: alg.gt(a, b),
    "LE": lambda a, b: alg.le(a, b),
    "GE": lambda a, b: alg.ge(a, b),
    "EQ": lambda a, b: alg.eq(a, b),
    "NEQ": lambda a, b: alg.bnot(alg.eq(a, b)),
    "IsNan": _isnan,
    "IsInf": _isinf,
    "Switch": _switch,
    "OR": _or,
    "AND": _and,
    "XOR": lambda a, b: alg.bxor(a, b),
    "Invert": lambda a: alg.bnot(a),
    "ScalarMaximum": lambda a, b: alg.maximum(a, b),
    "ScalarMinimum": lambda a, b: alg.minimum(a, b),
    "Clip": _clip,
    "Second": lambda a, b: b,
    "Identity": lambda a: a,
    "Cos": alg.cos,
    "Sin": alg.sin,
    "Sigmoid": alg.sigmoid,
    "Softplus": alg.softplus,
    "Log1mexp": _log1mexp,
    "GammaLn": alg.gammaln,
    "Gamma": _gamma,
    "Erf": alg.erf,
    "Erfc": _erfc,
    "Erfinv": alg.erfinv,
    "Erfcx": _erfcx,
    "Floor": _floor,
    "Ceil": _ceil,
    "RoundHalfToEven": _round,
    "Tanh": _tanh,
    "Psi": _ufn("psi"),
    "Ive": _ufn("ive", True),
    "Iv": _ufn("iv", True),
    "GammaInc": _ufn("gammainc"),
    "GammaIncC": _ufn("gammaincc"),
    "BetaInc": _ufn("betainc"),
    "ArcTan": _ufn("atan"),
}


def scalar_apply(sop, args):
    name = type(sop).__name__
    if name == "Cast":
        x = args[0]
        kind = np.dtype(sop.o_type.dtype).kind
        if kind == "b":
            return alg.tobool(x)
        if kind in "iu":
            if isinstance(x, B):
                return T(x)
            x = T(x)
            if isinstance(x, Term) and x.is_const():
                c = Fraction(x.const())
                return T(int(c))
            return x
        return T(x)
    if name == "Composite":
        env = dict(zip(sop.inputs, args))
        return _scalar_graph(sop.outputs[0], env)
    f = SCALAR.get(name)
    if f is None:
        raise Unsupported(f"scalar op {name}")
    return f(*args)


def _scalar_graph(out, env):
    if out in env:
        return env[out]
    if isinstance(out, Constant):
        return T(out.data)
    args = [_scalar_graph(i, env) for i in out.owner.inputs]
    env[out] = scalar_apply(out.owner.op, args)
    return env[out]


# ---------------------------------------------------------------------------------------------
# op handlers: (evaluator, op, inputs, node) -> list of outputs
# ---------------------------------------------------------------------------------------------
HANDLERS = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def _native(*xs):
    return all(not (isinstance(x, np.ndarray) and x.dtype == object) for x in xs)


@handles("Elemwise")
def _elemwise(ev, op, ins, node):
    outdt = node.outputs[0].type.dtype if node is not None else None
    if _native(*ins) and outdt is not None and np.dtype(outdt).kind in "iub":
        out = [[None]]
        op.perform(node, [np.asarray(i) for i in ins], out)
        return [np.asarray(out[0][0])]
    objs = [to_obj(i) for i in ins]
    b = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shape = b[0].shape
    out = np.empty(shape, dtype=object)
    sop = op.scalar_op
    for i in np.ndindex(*shape):
        out[i] = scalar_apply(sop, [x[i] for x in b])
    if outdt is not None:
        out = narrow(out, outdt)
    return [out]


def narrow(out, dtype):
    """object array of constants with integer/bool dtype -> native array"""
    kind = np.dtype(dtype).kind
    if kind == "b":
        if all(is_concrete_bool(x) for x in out.flat):
            return out.astype(bool)
        return out
    if kind in "iu":
        vals = []
        for x in out.flat:
            if is_concrete_bool(x):
                vals.append(int(x))
            elif isinstance(x, Term) and x.is_const() and Fraction(x.const()).denominator == 1:
                vals.append(int(x.const()))
            else:
                return out
        return np.array(vals, dtype=dtype).reshape(out.shape)
    for i in np.ndindex(*out.shape):
        if not isinstance(out[i], Term | Special):
            out[i] = T(out[i])
    return out


@handles("DimShuffle")
def _dimshuffle(ev, op, ins, node):
    x = ins[0]
    x = np.asarray(x)
    order = list(op.new_order)
    keep = [o for o in order if o != "x"]
    drop = [d for d in range(x.ndim) if d not in keep]
    for d in drop:
        if x.shape[d] != 1:
            raise ValueError("DimShuffle drops a non-1 dimension")
    x = x.transpose(keep + drop)
    x = x.reshape(x.shape[: len(keep)])
    shp, k = [], 0
    for o in order:
        if o == "x":
            shp.append(1)
        else:
            shp.append(x.shape[k])
            k += 1
    return [x.reshape(shp)]


@handles("Dot", "Dot22", "BatchedDot")
def _dot_op(ev, op, ins, node):
    a, b = ins
    if type(op).__name__ == "BatchedDot":
        return [np.stack([_dot(x, y) for x, y in zip(a, b)])]
    if _native(a, b) and np.asarray(a).dtype.kind in "iub" and np.asarray(b).dtype.kind in "iub":
        return [np.asarray(np.dot(a, b))]
    return [_dot(a, b)]


@handles("Sum", "Prod", "Max", "Min", "All", "Any", "CAReduce", "ProdWithoutZeros")
def _reduce(ev, op, ins, node):
    x = np.asarray(ins[0])
    name = type(op).__name__
    if name == "CAReduce":
        name = {"Add": "Sum", "Mul": "Prod", "ScalarMaximum": "Max", "ScalarMinimum": "Min"}[
            type(op.scalar_op).__name__
        ]
    axis = op.axis
    axes = tuple(range(x.ndim)) if axis is None else tuple(axis if isinstance(axis, (tuple, list)) else (axis,))
    if x.dtype != object:
        f = {"Sum": np.sum, "Prod": np.prod, "Max": np.max, "Min": np.min, "All": np.all, "Any": np.any}[name]
        return [np.asarray(f(x, axis=axes))]
    rest = [d for d in range(x.ndim) if d not in axes]
    y = x.transpose(rest + list(axes)).reshape([x.shape[d] for d in rest] + [-1])
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        v = list(y[i])
        if name == "Sum":
            r = alg.ZERO
            for t in v:
                r = r + T(t)
        elif name == "Prod":
            r = alg.ONE
            for t in v:
                r = r * T(t)
        elif name in ("Max", "Min"):
            r = T(v[0])
            for t in v[1:]:
                r = alg.maximum(r, t) if name == "Max" else alg.minimum(r, t)
        elif name == "All":
            r = alg.ball(v)
        else:
            r = alg.bany(v)
        out[i] = r
    return [narrow(out, node.outputs[0].type.dtype) if node is not None else out]


@handles("Argmax")
def _argmax(ev, op, ins, node):
    x = np.asarray(ins[0])
    axes = tuple(range(x.ndim)) if op.axis is None else tuple(op.axis)
    rest = [d for d in range(x.ndim) if d not in axes]
    y = x.transpose(rest + list(axes)).reshape([x.shape[d] for d in rest] + [-1])
    if x.dtype != object:
        return [np.argmax(y, axis=-1)]
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        best, bi = T(y[i][0]), T(0)
        for k in range(1, y.shape[-1]):
            c = alg.gt(y[i][k], best)
            best = alg.ite(c, y[i][k], best)
            bi = alg.ite(c, k, bi)
        out[i] = bi
    return [narrow(out, "int64")]


@handles("CumOp")
def _cum(ev, op, ins, node):
    x = np.asarray(ins[0])
    if x.dtype != object:
        return [np.cumsum(x, axis=op.axis) if op.mode == "add" else np.cumprod(x, axis=op.axis)]
    if op.axis is None:
        x = x.reshape(-1)
        ax = 0
    else:
        ax = op.axis
    out = np.moveaxis(x, ax, 0).copy()
    for k in range(1, out.shape[0]):
        for i in np.ndindex(*out.shape[1:]):
            a, b = out[(k - 1, *i)], out[(k, *i)]
            out[(k, *i)] = T(a) + T(b) if op.mode == "add" else T(a) * T(b)
    return [np.moveaxis(out, 0, ax)]


@handles("MakeVector")
def _makevector(ev, op, ins, node):
    if _native(*ins) and np.dtype(op.dtype).kind in "iub":
        return [np.array([np.asarray(i)[()] for i in ins], dtype=op.dtype)]
    out = np.empty(len(ins), dtype=object)
    for k, i in enumerate(ins):
        v = to_obj(i)[()]
        out[k] = v if isinstance(v, B) else T(v)
    return [narrow(out, op.dtype)]


@handles("Join")
def _join(ev, op, ins, node):
    ax, *xs = ins
    ax = concretise_int(ax)
    if any(is_obj(x) for x in xs):
        xs = [to_obj(x) for x in xs]
    return [np.concatenate(xs, axis=ax)]


@handles("Split")
def _split(ev, op, ins, node):
    x, ax, sizes = ins
    idx = np.cumsum(np.asarray(sizes).astype(int))[:-1]
    return list(np.split(x, idx, axis=concretise_int(ax)))


@handles("Reshape")
def _reshape(ev, op, ins, node):
    x, shp = ins
    return [np.asarray(x).reshape(tuple(int(s) for s in np.asarray(shp)))]


@handles("Shape")
def _shape(ev, op, ins, node):
    return [np.array(np.shape(ins[0]), dtype="int64")]


@handles("Shape_i")
def _shape_i(ev, op, ins, node):
    return [np.asarray(np.shape(ins[0])[op.i], dtype="int64")]


@handles("SpecifyShape")
def _specify_shape(ev, op, ins, node):
    x, *shp = ins
    x = np.asarray(x)
    for k, s in enumerate(shp):
        if s is None:
            continue
        if x.shape[k] != int(s):
            raise AssertionError(f"SpecifyShape: got shape {x.shape}, expected {shp}")
    return [x]


@handles("Unbroadcast", "ViewOp", "OutputGuard", "DeepCopyOp", "TransferOp")
def _identity(ev, op, ins, node):
    return [ins[0]]


@handles("TensorFromScalar")
def _tfs(ev, op, ins, node):
    x = ins[0]
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (Term, B, Special)):
        return [arr0(x)]
    return [from_native(np.asarray(x))]


@handles("ScalarFromTensor")
def _sft(ev, op, ins, node):
    x = np.asarray(ins[0])
    return [x[()]]


@handles("Alloc")
def _alloc(ev, op, ins, node):
    x, *shp = ins
    shp = tuple(concretise_int(s) for s in shp)
    return [np.broadcast_to(np.asarray(x), shp).copy()]


@handles("AllocEmpty")
def _allocempty(ev, op, ins, node):
    shp = tuple(concretise_int(s) for s in ins)
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        CTX.counter += 1
        out[i] = alg.var(f"uninit!{CTX.counter}")
    return [out]


@handles("Eye")
def _eye(ev, op, ins, node):
    n, m, k = (concretise_int(i) for i in ins)
    return [from_native(np.eye(n, m, k, dtype=op.dtype))]


@handles("Tri")
def _tri(ev, op, ins, node):
    n, m, k = (concretise_int(i) for i in ins)
    return [from_native(np.tri(n, m, k, dtype=op.dtype))]


@handles("ARange")
def _arange(ev, op, ins, node):
    a = [concretise_int(i) if not (is_obj(i)) else i[()] for i in map(np.asarray, ins)]
    a = [int(x.const()) if isinstance(x, Term) else x for x in a]
    return [from_native(np.arange(*a, dtype=op.dtype))]


@handles("ExtractDiag")
def _extractdiag(ev, op, ins, node):
    return [np.diagonal(np.asarray(ins[0]), op.offset, op.axis1, op.axis2)]


@handles("Repeat")
def _repeat(ev, op, ins, node):
    x, r = ins
    r = np.asarray(r)
    return [np.repeat(np.asarray(x), r, axis=op.axis)]


@handles("Nonzero")
def _nonzero(ev, op, ins, node):
    x = np.asarray(ins[0])
    if x.dtype == object:
        m = np.empty(x.shape, dtype=bool)
        for i in np.ndindex(*x.shape):
            m[i] = bool(alg.tobool(x[i]))
        x = m
    return [np.asarray(v, dtype="int64") for v in np.nonzero(x)]


def _fix_idx(idx, shape=None):
    out = []
    for k, i in enumerate(idx):
        if isinstance(i, slice):
            out.append(
                slice(*(None if v is None else concretise_int(v) for v in (i.start, i.stop, i.step)))
            )
        elif i is None or i is np.newaxis:
            out.append(None)
        else:
            dim = shape[k] if shape is not None and k < len(shape) else None
            out.append(concretise_int(i, list(range(dim)) if dim is not None else None))
    return tuple(out)


@handles("Subtensor")
def _subtensor(ev, op, ins, node):
    x, *rest = ins
    x = np.asarray(x)
    idx = indices_from_subtensor(rest, op.idx_list)
    return [np.asarray(x[_fix_idx(idx, x.shape)]) if x.dtype != object else _oget(x, _fix_idx(idx, x.shape))]


def _oget(x, idx):
    r = x[idx]
    return r if isinstance(r, np.ndarray) else arr0(r)


@handles("IncSubtensor")
def _incsubtensor(ev, op, ins, node):
    x, y, *rest = ins
    x = np.asarray(x)
    y = np.asarray(y)
    idx = _fix_idx(indices_from_subtensor(rest, op.idx_list), x.shape)
    if is_obj(x) or is_obj(y):
        x = to_obj(x).copy()
        y = to_obj(y)
    else:
        x = x.copy()
    if op.set_instead_of_inc:
        x[idx] = y if y.ndim else y[()]
    else:
        x[idx] = _oadd(x[idx], y)
    return [x]


def _oadd(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return a + b
    a, b = np.broadcast_arrays(to_obj(a), to_obj(b))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = T(a[i]) + T(b[i])
    return out if out.ndim else out[()]


def _adv_idx(idx, shape):
    out = []
    d = 0
    for i in idx:
        if isinstance(i, slice):
            out.append(slice(*(None if v is None else concretise_int(v) for v in (i.start, i.stop, i.step))))
            d += 1
        elif i is None:
            out.append(None)
        else:
            a = np.asarray(i)
            if a.dtype == bool:
                out.append(a)
                d += a.ndim
            elif a.dtype == object and a.size and all(
                isinstance(e, B) or is_concrete_bool(e) for e in a.flat
            ):
                m = np.empty(a.shape, dtype=bool)
                for j in np.ndindex(*a.shape):
                    m[j] = bool(a[j])
                out.append(m)
                d += a.ndim
            else:
                out.append(concretise_index_array(a, shape[d]))
                d += 1
    return tuple(out)


def _unflatten_idx(op, rest, node):
    # AdvancedSubtensor in pytensor 2.26 receives slices / None as inputs of dedicated types
    return rest


@handles("AdvancedSubtensor")
def _advsub(ev, op, ins, node):
    x, *idx = ins
    x = np.asarray(x)
    r = x[_adv_idx(idx, x.shape)]
    return [r if isinstance(r, np.ndarray) else arr0(r) if x.dtype == object else np.asarray(r)]


@handles("AdvancedIncSubtensor")
def _advinc(ev, op, ins, node):
    x, y, *idx = ins
    if is_obj(x) or is_obj(y):
        x = to_obj(x).copy()
        y = to_obj(y)
    else:
        x = np.asarray(x).copy()
    idx = _adv_idx(idx, x.shape)
    if op.set_instead_of_inc:
        x[idx] = y if np.ndim(y) else np.asarray(y)[()]
    elif x.dtype != object:
        np.add.at(x, idx, y)
    else:
        sel = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            sel[i] = i
        tgt = sel[idx]
        yb = np.broadcast_to(y, np.shape(tgt)) if isinstance(tgt, np.ndarray) else y
        for k in np.ndindex(*np.shape(tgt)):
            i = tgt[k]
            x[i] = T(x[i]) + T(yb[k])
    return [x]


@handles("AdvancedSubtensor1")
def _advsub1(ev, op, ins, node):
    x, i = ins
    x = np.asarray(x)
    return [x[concretise_index_array(i, x.shape[0])]]


@handles("AdvancedIncSubtensor1")
def _advinc1(ev, op, ins, node):
    x, y, i = ins
    return _advinc(ev, op, [x, y, i], node)


@handles("MakeSlice")
def _makeslice(ev, op, ins, node):
    return [slice(*(None if v is None else concretise_int(v) for v in ins))]


@handles("NoneTypeT", "NoneConst")
def _none(ev, op, ins, node):
    return [None]


@handles("CheckAndRaise", "Assert", "CheckParameterValue")
def _check(ev, op, ins, node):
    x, *conds = ins
    for c in conds:
        for e in to_obj(c).flat if isinstance(c, np.ndarray) else [c]:
            e = alg.tobool(e)
            if is_concrete_bool(e):
                if not e:
                    raise op.exc_type(op.msg)
            else:
                ASSERT_LOG.append(op.msg)
                if not bool(e):
                    raise op.exc_type(op.msg)
    return [x]


@handles("IfElse")
def _ifelse(ev, op, ins, node):
    c, *rest = ins
    n = op.n_outs
    a, b = rest[:n], rest[n:]
    c = np.asarray(c)
    c = alg.tobool(c[()] if c.ndim == 0 else c.item())
    if is_concrete_bool(c):
        return list(a if c else b)
    out = []
    for x, y in zip(a, b):
        if np.shape(x) != np.shape(y):
            return list(a if bool(c) else b)
        x, y = np.broadcast_arrays(to_obj(x), to_obj(y))
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = alg.ite(c, x[i], y[i])
        out.append(r)
    return out


@handles("Cholesky")
def _cholesky(ev, op, ins, node):
    a = to_obj(ins[0])
    lower = op.lower
    L = cholesky(a if lower else a.T)
    return [L if lower else L.T]


QR_SIGNS = [-1]


@handles("QRFull")
def _qr(ev, op, ins, node):
    """R (mode "r") is determined by R'R = M'M up to the sign of each row; QR_SIGNS picks the signs
    (checks run with several choices, the real LAPACK convention among them)"""
    if op.mode != "r":
        raise Unsupported(f"QR mode {op.mode}")
    M = to_obj(ins[0])
    m, n = M.shape
    if m < n:
        raise Unsupported("QR of a wide matrix")
    R = cholesky(dot(M.T, M)).T
    for i in range(n):
        if QR_SIGNS[i % len(QR_SIGNS)] < 0:
            for j in range(n):
                R[i, j] = -R[i, j]
    return [R]


@handles("Solve")
def _solve(ev, op, ins, node):
    a, b = to_obj(ins[0]), to_obj(ins[1])
    if getattr(op, "assume_a", "gen") in ("pos", "sym"):
        n = a.shape[0]
        s = a.copy()
        for i in range(n):
            for j in range(i):
                if op.lower:
                    s[j, i] = a[i, j]
                else:
                    s[i, j] = a[j, i]
        a = s
    return [solve(a, b)]


@handles("BilinearSolveDiscreteLyapunov")
def _lyapunov(ev, op, ins, node):
    """X with X = A X A' + Q, by its vectorised linear equation"""
    A, Q = to_obj(ins[0]), to_obj(ins[1])
    n = A.shape[0]
    M = to_obj(np.eye(n * n))
    for i, j, k, l in np.ndindex(n, n, n, n):
        M[i * n + j, k * n + l] = M[i * n + j, k * n + l] - A[i, k] * A[j, l]
    return [solve(M, Q.reshape(n * n)).reshape(n, n)]


@handles("SolveTriangular")
def _solvetri(ev, op, ins, node):
    return [
        solve_triangular(
            ins[0], ins[1], op.lower, getattr(op, "trans", 0), getattr(op, "unit_diagonal", False)
        )
    ]


@handles("CholeskySolve")
def _cholsolve(ev, op, ins, node):
    c, b = to_obj(ins[0]), to_obj(ins[1])
    if op.lower:
        return [solve_triangular(c, solve_triangular(c, b, True), True, 1)]
    return [solve_triangular(c, solve_triangular(c, b, False, 1), False)]


@handles("MatrixInverse", "MatrixPinv")
def _inv(ev, op, ins, node):
    return [inv(to_obj(ins[0]))]


@handles("Det")
def _det(ev, op, ins, node):
    return [arr0(det(to_obj(ins[0])))]


@handles("SLogDet")
def _slogdet(ev, op, ins, node):
    d = det(to_obj(ins[0]))
    return [arr0(_sign(d)), arr0(alg.log(alg.absolute(d)))]


@handles("BlockDiagonal")
def _blockdiag(ev, op, ins, node):
    ins = [np.asarray(i) for i in ins]
    if any(is_obj(i) for i in ins):
        ins = [to_obj(i) for i in ins]
    r = sum(i.shape[0] for i in ins)
    c = sum(i.shape[1] for i in ins)
    out = to_obj(np.zeros((r, c))) if any(is_obj(i) for i in ins) else np.zeros((r, c), ins[0].dtype)
    a = b = 0
    for i in ins:
        out[a : a + i.shape[0], b : b + i.shape[1]] = i
        a += i.shape[0]
        b += i.shape[1]
    return [out]


@handles("BilinearSolveDiscreteLyapunov")
def _dlyap(ev, op, ins, node):
    # semantics of the trusted dependency: X with X = A X A^T + Q
    a, q = to_obj(ins[0]), to_obj(ins[1])
    n = a.shape[0]
    K = to_obj(np.eye(n * n))
    for i, j, k, l in itertools.product(range(n), repeat=4):
        K[i * n + j, k * n + l] = K[i * n + j, k * n + l] - a[i, k] * a[j, l]
    return [solve(K, q.reshape(-1)).reshape(n, n)]


@handles("Softmax", "LogSoftmax")
def _softmax(ev, op, ins, node):
    x = to_obj(ins[0])
    ax = op.axis
    e = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        e[i] = alg.exp(x[i])
    axes = tuple(range(x.ndim)) if ax is None else (ax,)
    s = e.sum(axis=axes, keepdims=True)
    s = np.broadcast_to(s, x.shape)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = e[i] / s[i] if type(op).__name__ == "Softmax" else x[i] - alg.log(s[i])
    return [out]


@handles("SoftmaxGrad")
def _softmax_grad(ev, op, ins, node):
    dy, sm = to_obj(ins[0]), to_obj(ins[1])
    axes = tuple(range(sm.ndim)) if op.axis is None else (op.axis,)
    t = dy * sm
    return [np.asarray(t - t.sum(axis=axes, keepdims=True) * sm, dtype=object)]


@handles("Blockwise")
def _blockwise(ev, op, ins, node):
    core = op.core_op
    ndims = [len(d) for d in op.inputs_sig]
    ins = [np.asarray(i) for i in ins]
    batch = np.broadcast_shapes(*[i.shape[: i.ndim - n] for i, n in zip(ins, ndims)])
    bins = [np.broadcast_to(i, batch + i.shape[i.ndim - n :]) for i, n in zip(ins, ndims)]
    if batch == ():
        return ev.apply(core, bins, None if node is None else core_node(op, node))
    res = None
    for k in np.ndindex(*batch):
        r = ev.apply(core, [b[k] for b in bins], None if node is None else core_node(op, node))
        if res is None:
            res = [np.empty(batch + np.shape(x), dtype=np.asarray(x).dtype) for x in r]
        for o, x in zip(res, r):
            o[k] = x
    if res is None:
        raise Unsupported("Blockwise with empty batch")
    return res


def core_node(op, node):
    try:
        return op._create_dummy_core_node(node.inputs)
    except Exception:
        return None


def _opfromgraph(ev, op, ins, node):
    return ev.inner(op, op.inner_inputs, op.inner_outputs, ins)


HANDLERS["OpFromGraph"] = _opfromgraph


@handles("Scan")
def _scan(ev, op, ins, node):
    info = op.info
    if info.n_mit_mot:
        raise Unsupported("Scan with mit-mot")
    n_steps = concretise_int(ins[0])
    seqs = [np.asarray(s) for s in op.outer_seqs(ins)]
    mitsot = [np.asarray(s) for s in op.outer_mitsot(ins)]
    sitsot = [np.asarray(s) for s in op.outer_sitsot(ins)]
    shared = list(op.outer_shared(ins))
    nonseq = list(op.outer_non_seqs(ins))
    mit_taps = [list(t) for t in info.mit_sot_in_slices]
    mit_bufs = []
    for m, taps in zip(mitsot, mit_taps):
        k = -min(taps)
        mit_bufs.append([m[i] for i in range(k)])
    sit_bufs = [[s[0]] for s in sitsot]
    n_nit = info.n_nit_sot
    nit = [[] for _ in range(n_nit)]
    seq_taps = info.sequences if hasattr(info, "sequences") else None
    steps_done = 0
    for t in range(n_steps):
        inner = []
        # sequences: taps were expanded to separate (shifted) sequences by scan
        for s in seqs:
            inner.append(_oget(s, t) if s.dtype == object else np.asarray(s[t]))
        for b, taps, m in zip(mit_bufs, mit_taps, mitsot):
            k = -min(taps)
            for tp in taps:
                inner.append(np.asarray(b[k + t + tp]) if not isinstance(b[k + t + tp], (Term, B)) else arr0(b[k + t + tp]))
        for b in sit_bufs:
            v = b[-1]
            inner.append(v if isinstance(v, np.ndarray) else (arr0(v) if isinstance(v, (Term, B, Special)) else np.asarray(v)))
        inner.extend(shared)
        inner.extend(nonseq)
        outs = ev.inner(op, op.inner_inputs, op.inner_outputs, inner)
        p = 0
        for b in mit_bufs:
            b.append(outs[p])
            p += 1
        for b in sit_bufs:
            b.append(outs[p])
            p += 1
        for b in nit:
            b.append(outs[p])
            p += 1
        for k in range(len(shared)):
            shared[k] = outs[p]
            p += 1
        steps_done += 1
        if info.as_while:
            c = np.asarray(outs[p])
            c = alg.tobool(c[()] if c.dtype == object else c.item())
            if bool(c):
                break
    res = []

    def stack(lst, like=None):
        arrs = [np.asarray(x) for x in lst]
        if any(a.dtype == object for a in arrs):
            arrs = [to_obj(a) for a in arrs]
        return np.stack(arrs)

    for b, m in zip(mit_bufs, mitsot):
        res.append(_fit_buffer(stack(b), m))
    for b, s in zip(sit_bufs, sitsot):
        res.append(_fit_buffer(stack(b), s))
    for b, o in zip(nit, op.outer_nitsot_outs(node.outputs)):
        if b:
            res.append(stack(b))
        else:
            shp = tuple(0 if k == 0 else (d or 0) for k, d in enumerate(o.type.shape))
            res.append(np.empty(shp, dtype=object))
    res.extend(shared)
    return res


def _fit_buffer(full, buf):
    """the outer buffer can be shorter than the trace (memory-saving rewrites): keep the tail"""
    n = buf.shape[0]
    if full.shape[0] == n:
        return full
    if full.shape[0] > n:
        raise Unsupported("scan buffer shorter than trace")
    if is_obj(buf) or is_obj(full):
        return np.concatenate([to_obj(full), to_obj(buf[full.shape[0] :])])
    return np.concatenate([full, buf[full.shape[0] :]])


# ---------------------------------------------------------------------------------------------
# the evaluator
# ---------------------------------------------------------------------------------------------
class Evaluator:
    def __init__(self, givens=None, rv_handler=None, overrides=None, constants=None):
        self.givens = {}
        self.constants = constants or {}  # numbers that appear as constants of the graph -> numbers to use for them
        for k, v in (givens or {}).items():
            self.givens[k] = v if isinstance(v, np.ndarray) else np.asarray(v, dtype=object if isinstance(v, (Term, B)) else None)
        self.rv_handler = rv_handler
        self.overrides = overrides or {}
        self._topo = {}

    def const(self, v):
        d = v.data
        if d is None or isinstance(d, slice):
            return d
        if isinstance(d, np.ndarray):
            for old, new in self.constants.items():
                d = np.where(d == old, new, d) if d.dtype.kind == "f" else d
            return from_native(d)
        if isinstance(d, bool | int | float | np.generic):
            return from_native(np.asarray(d)) if not isinstance(d, int) else d
        return d

    def leaf(self, v):
        if v in self.givens:
            return self.givens[v]
        if isinstance(v, Constant):
            return self.const(v)
        if isinstance(v, SharedVariable):
            d = v.get_value(borrow=True)
            return from_native(d) if isinstance(d, np.ndarray | float) else d
        raise Unsupported(f"no value for graph input {v!r} ({v.type})")

    def apply(self, op, ins, node):
        name = type(op).__name__
        OPS_SEEN[name] = OPS_SEEN.get(name, 0) + 1
        h = self.overrides.get(name) or HANDLERS.get(name)
        if h is None:
            for klass in type(op).__mro__:
                if klass.__name__ in HANDLERS and klass.__name__ not in ("Op",):
                    h = HANDLERS[klass.__name__]
                    break
        if h is None:
            raise Unsupported(f"op {op} ({name})")
        return h(self, op, ins, node)

    def eval_nodes(self, nodes, env):
        from pytensor.tensor.random.op import RandomVariable
        from pymc.distributions.distribution import SymbolicRandomVariable

        for node in nodes:
            if all(o in env for o in node.outputs):
                continue
            ins = [env[i] if i in env else env.setdefault(i, self.leaf(i)) for i in node.inputs]
            op = node.op
            if self.rv_handler is not None and isinstance(op, RandomVariable | SymbolicRandomVariable):
                outs = self.rv_handler(self, node, ins)
                if outs is not None:
                    for o, v in zip(node.outputs, outs):
                        if o not in self.givens:
                            env[o] = v
                    continue
            if isinstance(op, ScalarOp):
                env[node.outputs[0]] = scalar_apply(op, [i.item() if isinstance(i, np.ndarray) else i for i in ins])
                continue
            outs = self.apply(op, ins, node)
            for o, v in zip(node.outputs, outs):
                if o in self.givens:
                    env[o] = self.givens[o]
                else:
                    env[o] = v
                    self.check_type(o, v)

    def check_type(self, o, v):
        if isinstance(v, np.ndarray) and hasattr(o.type, "ndim") and v.ndim != o.type.ndim:
            raise Unsupported(f"interpreter produced ndim {v.ndim} for {o} of type {o.type}")

    def __call__(self, outputs):
        single = isinstance(outputs, Variable)
        outs = [outputs] if single else list(outputs)
        env = dict(self.givens)
        nodes = io_toposort(list(self.givens), [o for o in outs if o not in env])
        self.eval_nodes(nodes, env)
        res = [env[o] if o in env else self.leaf(o) for o in outs]
        return res[0] if single else res

    def inner(self, op, inner_inputs, inner_outputs, values):
        key = id(op)
        nodes = self._topo.get(key)
        if nodes is None:
            nodes = self._topo[key] = io_toposort(list(inner_inputs), list(inner_outputs))
        env = dict(zip(inner_inputs, values))
        saved = self.givens
        self.givens = {}
        try:
            self.eval_nodes(nodes, env)
            return [env[o] if o in env else self.leaf(o) for o in inner_outputs]
        finally:
            self.givens = saved


def evaluate(outputs, givens=None, **kw):
    return Evaluator(givens, **kw)(outputs)
