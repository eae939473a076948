"""Exact symbolic scalars: the term language the encodings are written in.

A `Term` is a rational function  num / prod(factor_i ** e_i)  over *atoms*.  `num` and every
factor are sparse multivariate polynomials with exact rational coefficients.  Atoms are

  var   - a free symbolic input (the quantified variables of a check)
  sqrt  - s with s >= 0 and s*s == radicand
  ite   - v with (c -> v == a) and (not c -> v == b)
  exp   - e with e > 0, normalised so that exp(a + b) = exp(a) exp(b)
  log   - log of a polynomial, normalised over products, powers and exp atoms
  uf    - application of an otherwise uninterpreted function (erf, gammaln, ...)

`B` is a symbolic truth value (a z3 Boolean together with the atoms it mentions).  Defining
constraints of atoms are added to a query for exactly the atoms it (transitively) mentions.
Nothing in this module decides a property: it only builds the formulas z3 decides.
"""
from __future__ import annotations

import heapq
import math
import numbers

from fractions import Fraction

import numpy as np

from .z3shim import z3


class TooBig(Exception):
    """An encoding outgrew the term budget."""


class ForkLimit(Exception):
    pass


MAX_TERMS = 400_000


# ----------------------------------------------------------------------------------------------
# context
# ----------------------------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "name", "z", "data", "deps", "positive", "defs")

    def __init__(self, id, kind, name, data=None, positive=False):
        self.id = id
        self.kind = kind
        self.name = name
        self.z = z3.Real(name)
        self.data = data
        self.deps = None
        self.positive = positive
        self.defs = None


class Ctx:
    def __init__(self):
        self.atoms: list[Atom] = []
        self.by_key = {}
        self.factor_polys: list[dict] = []
        self.factor_ids = {}
        self.factor_z = {}
        self.side = []  # side conditions taken for granted by an evaluation (B), with a label
        self.explorer = None
        self.counter = 0
        self.exp_div = 8  # exp(x) is a power of the atom exp(x / exp_div)
        self.exp_collapse = False  # comparisons of sums of logs and other terms are exponentiated

    def new_atom(self, kind, name, key=None, data=None, positive=False):
        if key is not None and key in self.by_key:
            return self.by_key[key]
        a = Atom(len(self.atoms), kind, name, data, positive)
        self.atoms.append(a)
        if key is not None:
            self.by_key[key] = a
        return a


CTX = Ctx()


def reset():
    global CTX
    CTX.__init__()
    _zpoly_cache.clear()


# ----------------------------------------------------------------------------------------------
# polynomials: dict {monomial: coeff}; monomial = ((atom, exp), (atom, exp), ...) sorted by atom
# ----------------------------------------------------------------------------------------------
ONE_M = ()


ROUND_BITS = 900


def c_norm(c):
    """Exact, except that constants whose denominators outgrow 900 bits (products of many embedded
    floating-point constants) are rounded to a relative precision of 2**-450."""
    if type(c) is Fraction:
        d = c.denominator
        if d == 1:
            return c.numerator
        if d.bit_length() > ROUND_BITS:
            n = c.numerator
            sh = 450 + d.bit_length() - n.bit_length()
            if sh <= 0:
                return n // d
            q = Fraction((n << sh) // d, 1 << sh)
            return q.numerator if q.denominator == 1 else q
    return c


def _fsqrt(c):
    """sqrt of a positive rational that is not a perfect square, to 120 bits"""
    c = Fraction(c)
    k = 240 + 2 * max(0, c.denominator.bit_length() - c.numerator.bit_length())
    return c_norm(Fraction(math.isqrt((c.numerator << k) // c.denominator), 1 << (k // 2)))


def p_const(c):
    return {ONE_M: c} if c != 0 else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    elif j < lb:
        out.extend(b[j:])
    return tuple(out)


def p_add(p, q, scale=1):
    if not q:
        return p
    if not p and scale == 1:
        return q
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + c * scale
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    if len(out) > MAX_TERMS:
        raise TooBig(len(out))
    return out


def p_scale(p, s):
    if s == 1:
        return p
    if s == 0:
        return {}
    return {m: c_norm(c * s) for m, c in p.items()}


def _needs_reduce(p):
    atoms = CTX.atoms
    for m in p:
        for a, e in m:
            if e >= 2 and atoms[a].kind == "sqrt":
                return True
    return False


def p_reduce(p):
    """Replace s**2 by its radicand for sqrt atoms."""
    while _needs_reduce(p):
        out = {}
        for m, c in p.items():
            hit = None
            for k, (a, e) in enumerate(m):
                if e >= 2 and CTX.atoms[a].kind == "sqrt":
                    hit = k
                    break
            if hit is None:
                out = _acc(out, m, c)
                continue
            a, e = m[hit]
            rest = m[:hit] + (((a, e % 2),) if e % 2 else ()) + m[hit + 1 :]
            q = {rest: c}
            rad = CTX.atoms[a].data
            for _ in range(e // 2):
                q = _p_mul_raw(q, rad)
            for mm, cc in q.items():
                out = _acc(out, mm, cc)
        p = out
    return p


def _acc(out, m, c):
    v = out.get(m, 0) + c
    if v == 0:
        out.pop(m, None)
    else:
        out[m] = v
    return out


def _p_mul_raw(p, q):
    if len(p) < len(q):
        p, q = q, p
    if len(p) * len(q) > 40 * MAX_TERMS:
        raise TooBig((len(p), len(q)))
    out = {}
    get = out.get
    for mq, cq in q.items():
        for mp, cp in p.items():
            m = m_mul(mp, mq)
            out[m] = get(m, 0) + cp * cq
    out = {m: c_norm(c) for m, c in out.items() if c != 0}
    if len(out) > MAX_TERMS:
        raise TooBig(len(out))
    return out


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(q) == 1 and ONE_M in q:
        return p_scale(p, q[ONE_M])
    if len(p) == 1 and ONE_M in p:
        return p_scale(q, p[ONE_M])
    out = _p_mul_raw(p, q)
    return p_reduce(out)


def p_key(p):
    return frozenset(p.items())


def p_lead(p):
    return max(p, key=_m_order)


def _m_order(m):
    # lexicographic order on exponent vectors (atoms with small id first)
    return tuple((-a, e) for a, e in m)


def m_div(a, b):
    """a / b, or None when b does not divide a."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        have = d.get(v, 0)
        if have < e:
            return None
        if have == e:
            d.pop(v, None)
        else:
            d[v] = have - e
    return tuple(sorted(d.items()))


def p_divide_exact(p, f, limit=4000):
    """p / f if the division is exact, else None (lex leading-term division)."""
    if not p:
        return {}
    if len(f) == 1:
        (fm, fc), = f.items()
        out = {}
        for m, c in p.items():
            r = m_div(m, fm)
            if r is None:
                return None
            out[r] = c_norm(Fraction(c) / fc)
        return out
    if len(p) < len(f) or len(p) > limit:
        return None
    if not _maybe_divides(p, f):
        return None
    fl = p_lead(f)
    fc = f[fl]
    rem = dict(p)
    heap = [(_m_heapkey(m), m) for m in rem]
    heapq.heapify(heap)
    out = {}
    while heap:
        _, l = heapq.heappop(heap)
        lc = rem.get(l)
        if lc is None:
            continue
        r = m_div(l, fl)
        if r is None:
            return None
        c = c_norm(Fraction(lc) / fc)
        out[r] = c
        for m, cc in f.items():
            mm = m_mul(m, r)
            old = rem.get(mm)
            v = (old or 0) - cc * c
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
                if old is None:
                    heapq.heappush(heap, (_m_heapkey(mm), mm))
    return out


_BIG = 1 << 60
_PR = (1 << 61) - 1


def _m_heapkey(m):
    return tuple((a, -e) for a, e in m) + ((_BIG, 0),)


def _modc(c):
    if type(c) is int:
        return c % _PR
    c = Fraction(c)
    return c.numerator % _PR * pow(c.denominator % _PR, -1, _PR) % _PR


def _rv_mod(a):
    return (0x9E3779B97F4A7C15 * (a + 1) * (a + 7) + 12345 * a) % _PR


def _uni(p, v):
    out = {}
    for m, c in p.items():
        x = _modc(c)
        d = 0
        for a, e in m:
            if a == v:
                d = e
            else:
                x = x * pow(_rv_mod(a), e, _PR) % _PR
        out[d] = (out.get(d, 0) + x) % _PR
    return out


def _maybe_divides(p, f):
    """necessary condition for f | p: divisibility after a specialisation modulo a prime
    (only ever used to skip a simplification)"""
    v = p_lead(f)[0][0]
    fu = _uni(f, v)
    n = max(d for d, c in fu.items())
    if fu.get(n, 0) == 0:
        return True
    pu = _uni(p, v)
    dp = max(pu)
    co = [pu.get(i, 0) for i in range(dp + 1)]
    inv = pow(fu[n], -1, _PR)
    for i in range(dp, n - 1, -1):
        if co[i]:
            q = co[i] * inv % _PR
            for d, c in fu.items():
                co[i - n + d] = (co[i - n + d] - q * c) % _PR
    return not any(co[:n])


def p_primitive(p):
    """p = unit * mono * prim, with prim having leading coefficient 1 and no common monomial."""
    lead = p_lead(p)
    unit = p[lead]
    it = iter(p)
    common = dict(next(it))
    for m in it:
        if not common:
            break
        d = dict(m)
        for v in list(common):
            e = d.get(v, 0)
            if e == 0:
                common.pop(v)
            elif e < common[v]:
                common[v] = e
    mono = tuple(sorted(common.items()))
    inv = c_norm(1 / Fraction(unit))
    prim = {m_div(m, mono): c_norm(c * inv) for m, c in p.items()}
    return unit, mono, prim


def factor_id(prim):
    k = p_key(prim)
    i = CTX.factor_ids.get(k)
    if i is None:
        i = len(CTX.factor_polys)
        CTX.factor_polys.append(prim)
        CTX.factor_ids[k] = i
    return i


# ----------------------------------------------------------------------------------------------
# Terms
# ----------------------------------------------------------------------------------------------
def as_frac(x):
    if isinstance(x, bool | np.bool_):
        return int(x)
    if isinstance(x, int | np.integer):
        return int(x)
    if isinstance(x, Fraction):
        return c_norm(x)
    f = float(x)
    return c_norm(Fraction(f))


class Special:
    """nan / +inf / -inf"""

    __slots__ = ("kind",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return self.kind

    def sign(self):
        return {"inf": 1, "-inf": -1, "nan": 0}[self.kind]

    def _arith(self, other, op, rev=False):
        a, b = (other, self) if rev else (self, other)
        return special_arith(op, a, b)

    def __add__(self, o):
        return self._arith(o, "add")

    def __radd__(self, o):
        return self._arith(o, "add", True)

    def __sub__(self, o):
        return self._arith(o, "sub")

    def __rsub__(self, o):
        return self._arith(o, "sub", True)

    def __mul__(self, o):
        return self._arith(o, "mul")

    def __rmul__(self, o):
        return self._arith(o, "mul", True)

    def __truediv__(self, o):
        return self._arith(o, "div")

    def __rtruediv__(self, o):
        return self._arith(o, "div", True)

    def __neg__(self):
        return {"nan": NAN, "inf": NINF, "-inf": PINF}[self.kind]


NAN = Special("nan")
PINF = Special("inf")
NINF = Special("-inf")


def sign_of(t):
    """-1/0/1 of a term; forks the exploration when undetermined."""
    if isinstance(t, Special):
        return t.sign()
    t = T(t)
    if t.is_const():
        c = t.const()
        return (c > 0) - (c < 0)
    if bool(gt(t, 0)):
        return 1
    if bool(lt(t, 0)):
        return -1
    return 0


def special_arith(op, a, b):
    ka = a.kind if isinstance(a, Special) else None
    kb = b.kind if isinstance(b, Special) else None
    if ka == "nan" or kb == "nan":
        return NAN
    if op == "sub":
        b = -b if isinstance(b, Special) else b
        kb = b.kind if isinstance(b, Special) else None
        op = "add"
    if op == "add":
        if ka and kb:
            return a if ka == kb else NAN
        return a if ka else b
    if op == "mul":
        s = sign_of(a) * sign_of(b)
        return NAN if s == 0 else (PINF if s > 0 else NINF)
    if op == "div":
        if ka and kb:
            return NAN
        if kb:
            return T(0)
        s = sign_of(a) * (sign_of(b) or 1)
        return PINF if s > 0 else NINF
    raise NotImplementedError(op)


class Term:
    __slots__ = ("num", "den", "_key")
    __array_priority__ = 1000
    __array_ufunc__ = None  # numpy scalars defer to our reflected operators

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._key = None

    # -- structure ---------------------------------------------------------------------------
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and ONE_M in self.num))

    def const(self):
        return self.num.get(ONE_M, 0)

    def is_zero(self):
        return not self.num

    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), frozenset(self.den.items()))
        return self._key

    def __repr__(self):
        return show(self)

    # -- arithmetic --------------------------------------------------------------------------
    def __neg__(self):
        return Term(p_scale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __add__(self, o):
        if isinstance(o, Special):
            return special_arith("add", self, o)
        o = T(o)
        if o is NotImplemented:
            return NotImplemented
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            return norm(p_add(self.num, o.num), self.den)
        den = dict(self.den)
        for f, e in o.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        n1 = _raise(self.num, self.den, den)
        n2 = _raise(o.num, o.den, den)
        return norm(p_add(n1, n2), den)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Special):
            return special_arith("sub", self, o)
        return self + (-T(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Special):
            return special_arith("mul", self, o)
        o = T(o)
        if not self.num or not o.num:
            return ZERO
        if not self.den and not o.den:
            return Term(p_mul(self.num, o.num))
        # cancel whole-factor matches before expanding
        n1, d1 = self.num, self.den
        n2, d2 = o.num, o.den
        if d2 and len(n1) <= 4000:
            n1, d2 = _cancel(n1, d2)
        if d1 and len(n2) <= 4000:
            n2, d1 = _cancel(n2, d1)
        den = dict(d1)
        for f, e in d2.items():
            den[f] = den.get(f, 0) + e
        return norm(p_mul(n1, n2), den, cancel=False)

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            return PINF  # 1/0 only arises for constants; symbolic zero divisors are side conditions
        num = {ONE_M: 1}
        for f, e in self.den.items():
            for _ in range(e):
                num = p_mul(num, CTX.factor_polys[f])
        unit, mono, prim = p_primitive(self.num)
        num = p_scale(num, c_norm(1 / Fraction(unit)))
        den = {}
        for a, e in mono:
            atom = CTX.atoms[a]
            if atom.kind == "sqrt":
                # 1/s**e -> s**(e%2) / radicand**ceil(e/2)
                k = (e + 1) // 2
                if e % 2:
                    num = p_mul(num, {((a, 1),): 1})
                r = Term({ONE_M: 1})
                for _ in range(k):
                    r = r * Term(atom.data)
                ri = r.inv()
                t = Term(num) * ri
                num = t.num
                for f, ee in t.den.items():
                    den[f] = den.get(f, 0) + ee
            else:
                f = factor_id({((a, 1),): 1})
                den[f] = den.get(f, 0) + e
        if len(prim) > 1:
            sq = _sqrt_atoms(prim)
            if sq:
                # rationalise the denominator: p = u + s*v  ->  1/p = (u - s v) / (u^2 - s^2 v^2)
                s = sq[0]
                u, v = _split(prim, s)
                conj = p_add(u, p_mul({((s, 1),): 1}, v), -1)
                rad = CTX.atoms[s].data
                d = p_add(p_mul(u, u), p_mul(rad, p_mul(v, v)), -1)
                t = Term(p_mul(num, conj)) * Term(d).inv()
                dd = dict(den)
                for f, ee in t.den.items():
                    dd[f] = dd.get(f, 0) + ee
                return norm(t.num, dd)
            f = factor_id(prim)
            den[f] = den.get(f, 0) + 1
        return norm(num, den)

    def __truediv__(self, o):
        if isinstance(o, Special):
            return special_arith("div", self, o)
        o = T(o)
        if not o.num:
            s = sign_of(self)
            return NAN if s == 0 else (PINF if s > 0 else NINF)
        if o.is_const():
            return Term(p_scale(self.num, c_norm(1 / Fraction(o.const()))), self.den)
        return self * o.inv()

    def __rtruediv__(self, o):
        return T(o) / self

    def __pow__(self, k):
        return power(self, k)

    def __rpow__(self, b):
        return power(T(b), self)

    def __abs__(self):
        return absolute(self)

    # -- comparisons -------------------------------------------------------------------------
    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return gt(self, o)

    def __ge__(self, o):
        return ge(self, o)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return bnot(eq(self, o))

    __hash__ = None

    # numpy object-array ufunc fallbacks (np.exp(obj) calls x.exp())
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def __bool__(self):
        return bool(bnot(eq(self, 0)))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise TypeError("symbolic term has no float value")

    def __int__(self):
        if self.is_const() and Fraction(self.const()).denominator == 1:
            return int(self.const())
        raise TypeError("symbolic term has no int value")


def _sqrt_atoms(p):
    out = []
    for m in p:
        for a, e in m:
            if CTX.atoms[a].kind == "sqrt" and a not in out:
                out.append(a)
    return out


def _split(p, s):
    u, v = {}, {}
    for m, c in p.items():
        d = dict(m)
        if s in d:
            d.pop(s)
            v[tuple(sorted(d.items()))] = c
        else:
            u[m] = c
    return u, v


def _raise(num, den, target):
    for f, e in target.items():
        k = e - den.get(f, 0)
        for _ in range(k):
            num = p_mul(num, CTX.factor_polys[f])
    return num


def _cancel(num, den):
    out = dict(den)
    for f in list(out):
        while out.get(f, 0) > 0:
            q = p_divide_exact(num, CTX.factor_polys[f])
            if q is None:
                break
            num = q
            out[f] -= 1
            if out[f] == 0:
                del out[f]
    return num, out


def norm(num, den, cancel=True):
    if not num:
        return ZERO
    if den and cancel:
        num, den = _cancel(num, den)
    return Term(num, den)


def T(x):
    if type(x) is Term:
        return x
    if isinstance(x, Special):
        return x
    if isinstance(x, B):
        return ite(x, 1, 0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return T(x.item())
    if isinstance(x, bool | np.bool_ | int | np.integer | Fraction):
        return Term(p_const(as_frac(x)))
    if isinstance(x, numbers.Real):
        f = float(x)
        if math.isnan(f):
            return NAN
        if math.isinf(f):
            return PINF if f > 0 else NINF
        return Term(p_const(as_frac(x)))
    return NotImplemented


ZERO = Term({})
ONE = Term({ONE_M: 1})


def atom_term(a):
    return Term({((a.id, 1),): 1})


def var(name):
    """A free symbolic real."""
    return atom_term(CTX.new_atom("var", name, key=("var", name)))


def array(name, shape, sym=False):
    """Object array of fresh variables (symmetric matrix when sym)."""
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        j = idx
        if sym:
            j = idx[:-2] + tuple(sorted(idx[-2:]))
        out[idx] = var(name + "".join(f"_{k}" for k in j))
    return out


def lift(x):
    """numpy array -> object array of Terms"""
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    for idx in np.ndindex(*x.shape):
        out[idx] = T(x[idx])
    return out


# ----------------------------------------------------------------------------------------------
# Booleans
# ----------------------------------------------------------------------------------------------
class B:
    __slots__ = ("z", "atoms", "ev")
    __array_priority__ = 1001
    __array_ufunc__ = None

    def __init__(self, z, atoms, ev):
        self.z = z
        self.atoms = atoms
        self.ev = ev  # callable: (numeric evaluator) -> bool

    def __bool__(self):
        if CTX.explorer is None:
            raise ForkLimit("symbolic branch outside an exploration: %s" % self.z)
        return CTX.explorer.decide(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __repr__(self):
        return f"B({self.z})"

    def __eq__(self, o):
        return bnot(bxor(self, o))

    def __ne__(self, o):
        return bxor(self, o)

    __hash__ = None

    # arithmetic on booleans: promote
    def __add__(self, o):
        return T(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return T(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return T(self) - o

    def __rsub__(self, o):
        return T(o) - T(self)


def is_concrete_bool(x):
    return isinstance(x, bool | np.bool_)


def tobool(x):
    if is_concrete_bool(x) or isinstance(x, B):
        return x
    if isinstance(x, Term):
        if x.is_const():
            return x.const() != 0
        return bnot(eq(x, 0))
    return bool(x)


def band(a, b):
    a, b = tobool(a), tobool(b)
    if is_concrete_bool(a):
        return b if a else False
    if is_concrete_bool(b):
        return a if b else False
    return B(z3.And(a.z, b.z), a.atoms | b.atoms, lambda ev: a.ev(ev) and b.ev(ev))


def bor(a, b):
    a, b = tobool(a), tobool(b)
    if is_concrete_bool(a):
        return True if a else b
    if is_concrete_bool(b):
        return True if b else a
    return B(z3.Or(a.z, b.z), a.atoms | b.atoms, lambda ev: a.ev(ev) or b.ev(ev))


def bnot(a):
    a = tobool(a)
    if is_concrete_bool(a):
        return not a
    return B(z3.Not(a.z), a.atoms, lambda ev: not a.ev(ev))


def bxor(a, b):
    a, b = tobool(a), tobool(b)
    if is_concrete_bool(a):
        return bnot(b) if a else b
    if is_concrete_bool(b):
        return bnot(a) if b else a
    return B(z3.Xor(a.z, b.z), a.atoms | b.atoms, lambda ev: a.ev(ev) != b.ev(ev))


def ball(bs):
    r = True
    for b in bs:
        r = band(r, b)
    return r


def bany(bs):
    r = False
    for b in bs:
        r = bor(r, b)
    return r


_zpoly_cache = {}


def p_atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def _rv(c):
    c = Fraction(c)
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)


def zpoly(p):
    k = p_key(p)
    z = _zpoly_cache.get(k)
    if z is not None:
        return z
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(_rv(c))
        for a, e in m:
            za = CTX.atoms[a].z
            fs.extend([za] * e)
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
    _zpoly_cache[k] = z
    return z


def _sign_poly(t: Term):
    """A polynomial with the sign of t (denominators non-zero), as (num, [odd factors])."""
    odd = [CTX.factor_polys[f] for f, e in t.den.items() if e % 2]
    return t.num, odd


def t_atoms(t):
    s = p_atoms(t.num)
    for f in t.den:
        s |= p_atoms(CTX.factor_polys[f])
    return s


def _cmp(a, b, opname):
    a, b = T(a), T(b)
    if isinstance(a, Special) or isinstance(b, Special):
        ka = a.kind if isinstance(a, Special) else None
        kb = b.kind if isinstance(b, Special) else None
        if ka == "nan" or kb == "nan":
            return False
        va = a.sign() if ka else 0
        vb = b.sign() if kb else 0
        return {"lt": va < vb, "le": va <= vb, "eq": va == vb}[opname]
    d = a - b
    if d.is_const():
        c = d.const()
        return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[opname]
    pq = _log_collapse(d)
    if pq is not None:
        return _cmp(*pq, opname)
    num, odd = _sign_poly(d)
    atoms = frozenset(t_atoms(d))
    unit, mono, prim = p_primitive(num)
    if opname == "eq":
        z = zpoly(num) == 0
        return B(z, atoms, lambda ev: abs(ev(d)) < 1e-12)
    # sign normalisation: drop positive atoms from the common monomial
    pos = all(CTX.atoms[x].positive for x, _ in mono)
    if pos and mono:
        num = p_scale(prim, unit)
    odd = [f for f in odd if not _obviously_positive(f)]
    if not odd and _obviously_positive(num):
        return False
    if not odd and _obviously_positive(p_scale(num, -1)):
        return True
    z = zpoly(num)
    for f in odd:
        z = z * zpoly(f)
    z = z < 0 if opname == "lt" else z <= 0
    if opname == "lt":
        return B(z, atoms, lambda ev: ev(d) < 0)
    return B(z, atoms, lambda ev: ev(d) <= 0)


def _log_collapse(d):
    """sum_i k_i log x_i + c  <  0   as   prod_{k_i>0} x_i^k_i * e^c  <  prod_{k_i<0} x_i^-k_i"""
    if d.den:
        return None
    logs, c0, rest = [], 0, {}
    for m, c in d.num.items():
        if m == ONE_M:
            c0 = c
            continue
        f = Fraction(c)
        if CTX.exp_collapse and not (len(m) == 1 and CTX.atoms[m[0][0]].kind == "log"):
            rest[m] = c
            continue
        if len(m) != 1 or m[0][1] != 1 or CTX.atoms[m[0][0]].kind != "log" or f.denominator != 1 or abs(f) > 8:
            return None
        logs.append((m[0][0], int(f)))
    if not logs or len(logs) > 6 or abs(c0) > 50:
        return None
    lhs, rhs = ONE, ONE
    for a, k in logs:
        x = Term(CTX.atoms[a].data)
        if k > 0:
            lhs = lhs * ipow(x, k)
        else:
            rhs = rhs * ipow(x, -k)
    if c0:
        lhs = lhs * Term(p_const(_exp_const(c0)))
    if rest:
        lhs = lhs * exp(Term(rest))
    return lhs, rhs


def _obviously_positive(p):
    """positive coefficients, every monomial a product of positive atoms / even powers with a
    positive constant or all-positive monomial present"""
    strict = False
    for m, c in p.items():
        if c <= 0:
            return False
        allpos = all(CTX.atoms[a].positive for a, _ in m)
        if not allpos and not all(CTX.atoms[a].positive or e % 2 == 0 for a, e in m):
            return False
        strict = strict or allpos
    return strict


def lt(a, b):
    return _cmp(a, b, "lt")


def le(a, b):
    return _cmp(a, b, "le")


def gt(a, b):
    return _cmp(b, a, "lt")


def ge(a, b):
    return _cmp(b, a, "le")


def eq(a, b):
    if isinstance(a, B) or isinstance(b, B):
        if (isinstance(a, B) or is_concrete_bool(a)) and (isinstance(b, B) or is_concrete_bool(b)):
            return bnot(bxor(a, b))
    return _cmp(a, b, "eq")


# ----------------------------------------------------------------------------------------------
# functions
# ----------------------------------------------------------------------------------------------
def positive_var(name):
    a = CTX.new_atom("var", name, key=("var", name), positive=True)
    a.positive = True
    return atom_term(a)


def ite(c, a, b):
    c = tobool(c)
    if is_concrete_bool(c):
        return a if c else b
    if isinstance(a, B) or isinstance(b, B) or (is_concrete_bool(a) and is_concrete_bool(b)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = T(a), T(b)
    sa, sb = isinstance(a, Special), isinstance(b, Special)
    if sa and sb and a.kind == b.kind:
        return a
    if sa or sb or (CTX.explorer is not None and CTX.explorer.fork_all):
        return a if bool(c) else b
    if a.key() == b.key():
        return a
    if CTX.explorer is not None:
        r = CTX.explorer.resolve(c)
        if r is not None:
            return a if r else b
    key = ("ite", c.z.get_id(), a.key(), b.key())
    at = CTX.new_atom("ite", f"ite!{len(CTX.atoms)}", key=key, data=(c, a, b))
    return atom_term(at)


def absolute(x):
    x = T(x)
    if isinstance(x, Special):
        return PINF if x.kind != "nan" else NAN
    if x.is_const():
        return Term(p_const(abs(x.const())))
    c = ge(x, 0)
    return ite(c, x, -x)


def maximum(a, b):
    a, b = T(a), T(b)
    if isinstance(a, Special) or isinstance(b, Special):
        for s, o in ((a, b), (b, a)):
            if isinstance(s, Special):
                if s.kind == "nan":
                    return NAN
                return s if s.kind == "inf" else o
    return ite(ge(a, b), a, b)


def minimum(a, b):
    a, b = T(a), T(b)
    if isinstance(a, Special) or isinstance(b, Special):
        for s, o in ((a, b), (b, a)):
            if isinstance(s, Special):
                if s.kind == "nan":
                    return NAN
                return s if s.kind == "-inf" else o
    return ite(le(a, b), a, b)


def _isqrt_frac(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return c_norm(Fraction(rn, rd))
    return None


def _side(b, label):
    """A condition the encoding relies on (domain of sqrt/log, sign of a denominator)."""
    if is_concrete_bool(b):
        if not b:
            CTX.side.append((False, label))
        return
    CTX.side.append((b, label))


def sqrt(x):
    x = T(x)
    if isinstance(x, Special):
        return NAN if x.kind in ("nan", "-inf") else PINF
    if x.is_const():
        c = x.const()
        if c < 0:
            return NAN
        r = _isqrt_frac(c)
        if r is None:
            r = _fsqrt(c)
        return Term(p_const(r))
    # sqrt(n/d) = sqrt(n*d_odd) / (d_odd * d_even^(1/2))
    num = x.num
    out_den = {}
    for f, e in x.den.items():
        k = (e + 1) // 2
        out_den[f] = k
        if e % 2:
            num = p_mul(num, CTX.factor_polys[f])
        fp = CTX.factor_polys[f]
        if not _obviously_positive(fp):
            _side(gt(Term(fp), 0), "positive denominator under sqrt")
    unit, mono, prim = p_primitive(num)
    out = {ONE_M: 1}
    rest = []
    for a, e in mono:
        at = CTX.atoms[a]
        if at.positive and e >= 2:
            out = p_mul(out, {((a, e // 2),): 1})
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    u = Fraction(unit)
    if u < 0:
        prim = p_scale(prim, -1)
        u = -u
        sgn_flip = True
    r = _isqrt_frac(u)
    if r is None:
        r = _fsqrt(u)
    out = p_scale(out, r)
    root = None
    if len(prim) > 1 or prim.get(ONE_M) != 1 or True:
        root = _p_sqrt(prim) if len(prim) > 1 else None
    if root is not None and not rest:
        # sqrt(q^2) = |q|
        q = Term(root)
        t = Term(out) * absolute(q)
        dd = Term({ONE_M: 1}, out_den)
        return t * dd
    rad = p_mul({tuple(rest): 1}, prim)
    if len(rad) == 1 and rad.get(ONE_M) == 1:
        return norm(out, out_den)
    if len(rad) == 1:
        (m, c), = rad.items()
        if c == 1 and len(m) == 1 and m[0][1] % 2 == 0:
            base = Term({((m[0][0], m[0][1] // 2),): 1})
            return Term(out) * absolute(base) * Term({ONE_M: 1}, out_den)
    at = CTX.new_atom(
        "sqrt", f"sqrt!{len(CTX.atoms)}", key=("sqrt", p_key(rad)), data=rad, positive=True
    )
    _side(ge(Term(rad), 0), "non-negative radicand")
    return norm(p_mul(out, {((at.id, 1),): 1}), out_den)


def _p_sqrt(p):
    """q with q*q == p for a perfect-square polynomial (small ones only), else None"""
    if len(p) > 60:
        return None
    lead = p_lead(p)
    if any(e % 2 for _, e in lead):
        return None
    c = _isqrt_frac(p[lead]) if p[lead] > 0 else None
    if c is None:
        return None
    lm = tuple((a, e // 2) for a, e in lead)
    q = {lm: c}
    rem = p_add(p, p_mul(q, q), -1)
    for _ in range(40):
        if not rem:
            return q
        l = p_lead(rem)
        d = m_div(l, lm)
        if d is None:
            return None
        cc = c_norm(Fraction(rem[l]) / (2 * Fraction(c)))
        add = {d: cc}
        if d in q:
            return None
        # rem -= 2*q*add + add^2
        rem = p_add(rem, p_add(p_scale(p_mul(q, add), 2), p_mul(add, add)), -1)
        q = p_add(q, add)
    return None


def _exp_const(c):
    """exp of a number; a logarithm of a small rational (a float) gives the rational back"""
    v = Fraction(math.exp(c))
    r = v.limit_denominator(10**6)
    return c_norm(r if r and abs(r - v) < v * Fraction(1, 10**14) and max(r.numerator, r.denominator) < 10**6 else v)


def exp(x):
    x = T(x)
    if isinstance(x, Special):
        return {"nan": NAN, "inf": PINF, "-inf": ZERO}[x.kind]
    if x.is_const():
        c = x.const()
        if c == 0:
            return ONE
        return Term(p_const(_exp_const(c)))
    out = ONE
    for m, c in x.num.items():
        if m == ONE_M and not x.den:
            out = out * Term(p_const(_exp_const(c)))
            continue
        if not x.den and len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == "log":
            base = Term(CTX.atoms[m[0][0]].data)
            f = Fraction(c)
            if f.denominator in (1, 2):
                b = base if f.denominator == 1 else sqrt(base)
                out = out * ipow(b, f.numerator)
                continue
        unit = Term({m: 1}, dict(x.den)) if x.den else Term({m: 1})
        if x.den:
            unit = norm(unit.num, unit.den)
            if not unit.den:
                out = out * exp(Term(p_scale(unit.num, c)))
                continue
        f = Fraction(c)
        if f.denominator <= 4096:
            base, k = Fraction(1, math.lcm(f.denominator, CTX.exp_div)), None
            k = int(f / base)
        else:  # an embedded floating-point constant: exact doublings of it still share one atom
            a, sgn = abs(f), 1 if f > 0 else -1
            e = 0
            while a >= 2:
                a, e = a / 2, e + 1
            while a < 1:
                a, e = a * 2, e - 1
            base, k = (a / 8, sgn * 2 ** (e + 3)) if e >= -3 else (abs(f), sgn)
        out = out * ipow(atom_term(_exp_atom(unit * Term(p_const(c_norm(base))))), k)
    return out


def _exp_atom(arg):
    return CTX.new_atom("exp", f"exp!{len(CTX.atoms)}", key=("exp", arg.key()), data=arg, positive=True)


def log(x):
    x = T(x)
    if isinstance(x, Special):
        return {"nan": NAN, "inf": PINF, "-inf": NAN}[x.kind]
    if x.is_zero():
        return NINF
    if x.is_const():
        c = x.const()
        if c < 0:
            return NAN
        return Term(p_const(c_norm(Fraction(math.log(c)))) if c != 1 else {})
    if CTX.explorer is not None and CTX.explorer.log_positive:
        CTX.explorer.assume(gt(x, 0))  # stated precondition of the check
    elif CTX.explorer is not None:
        # log 0 = -inf, log(negative) = nan: decided (forking if necessary) unless x is surely > 0
        if not CTX.explorer.surely(gt(x, 0)):
            s = sign_of(x)
            if s == 0:
                return NINF
            if s < 0:
                return NAN
    else:
        _side(gt(x, 0), "positive argument of log")
    out = _log_poly(x.num, x)
    for f, e in x.den.items():
        out = out - e * _log_poly(CTX.factor_polys[f], None)
    return out


def _log_poly(p, whole):
    unit, mono, prim = p_primitive(p)
    out = ZERO
    flip = None
    if unit < 0 and len(prim) == 1 and ONE_M in prim:
        # the argument is positive, so a factor of odd degree is negative: log(-v)
        flip = next((a for a, e in mono if e % 2 and not CTX.atoms[a].positive and CTX.atoms[a].kind not in ("exp", "sqrt")), None)
    for a, e in mono:
        at = CTX.atoms[a]
        if at.kind == "exp":
            out = out + e * at.data
        elif at.kind == "sqrt":
            out = out + Fraction(e, 2) * _log_poly(at.data, None)
        else:
            t = atom_term(at)
            if not at.positive and e % 2 == 0:
                # log(v^2k): sign of v free
                l = CTX.new_atom(
                    "log", f"log!{len(CTX.atoms)}", key=("log", p_key({((a, 2),): 1})), data={((a, 2),): 1}
                )
                out = out + Fraction(e, 2) * atom_term(l)
                continue
            if a == flip:
                t = -t
            l = CTX.new_atom("log", f"log!{len(CTX.atoms)}", key=("log", p_key(t.num)), data=t.num)
            out = out + e * atom_term(l)
    u = unit
    if u < 0:
        u = -u
        prim = p_scale(prim, -1)
        if len(prim) == 1 and ONE_M in prim:
            prim = {ONE_M: 1}  # sign absorbed by a negative monomial (side condition covers it)
    if u != 1:
        out = out + Term(p_const(c_norm(Fraction(math.log(u)))))
    if not (len(prim) == 1 and ONE_M in prim):
        root = _p_sqrt(prim)
        if root is not None:
            return out + log_abs_square(root)
        l = CTX.new_atom("log", f"log!{len(CTX.atoms)}", key=("log", p_key(prim)), data=prim)
        out = out + atom_term(l)
    return out


def log_abs_square(root):
    sq = p_mul(root, root)
    r = Term(root)
    if _obviously_positive(root):
        return 2 * _log_poly(root, None)
    l = CTX.new_atom("log", f"log!{len(CTX.atoms)}", key=("log", p_key(sq)), data=sq)
    return atom_term(l)


def ipow(x, k):
    if k < 0:
        return ipow(T(x).inv(), -k)
    out = ONE
    b = T(x)
    while k:
        if k & 1:
            out = out * b
        k >>= 1
        if k:
            b = b * b
    return out


def power(x, k):
    x, k = T(x), T(k)
    if isinstance(x, Special) or isinstance(k, Special):
        if isinstance(x, Term) and x.is_const() and x.const() == 1:
            return ONE
        if isinstance(x, Special) and isinstance(k, Term) and k.is_const() and k.const() == int(k.const()) and 0 < k.const() < 10:
            out = x
            for _ in range(int(k.const()) - 1):
                out = out * x
            return out
        raise NotImplementedError("special power")
    if k.is_const():
        f = Fraction(k.const())
        if f.denominator == 1:
            if x.is_const() and x.const() == 0:
                return ONE if f == 0 else (ZERO if f > 0 else PINF)
            return ipow(x, f.numerator)
        if f.denominator == 2:
            return ipow(sqrt(x), f.numerator)
        if x.is_const():
            return Term(p_const(c_norm(Fraction(float(x.const()) ** float(f)))))
    return exp(k * log(x))


def uf(name, *args, positive=False):
    ts = [T(a) for a in args]
    if any(isinstance(t, Special) for t in ts):
        raise NotImplementedError(f"{name} of special value")
    key = ("uf", name, tuple(t.key() for t in ts))
    a = CTX.new_atom("uf", f"{name}!{len(CTX.atoms)}", key=key, data=(name, ts), positive=positive)
    return atom_term(a)


def log1p(x):
    return log(1 + T(x))


def sigmoid(x):
    return ONE / (ONE + exp(-T(x)))


def softplus(x):
    return log(ONE + exp(x))


def gammaln(x):
    """gammaln normalised by gammaln(p + k) = gammaln(p) + sum log(p + i)"""
    x = T(x)
    if isinstance(x, Special):
        return PINF if x.kind == "inf" else NAN
    if x.is_const():
        c = Fraction(x.const())
        if c.denominator == 1 and c.numerator <= 0:
            return PINF
        return T(math.lgamma(float(c)))
    k = 0
    if not x.den:
        k = math.floor(Fraction(x.num.get(ONE_M, 0)))
    base = x - k
    out = uf("gammaln", base)
    if k > 0:
        for i in range(k):
            out = out + log_unchecked(base + i)
    elif k < 0:
        for i in range(1, -k + 1):
            out = out - log_unchecked(base - i)
    return out


def log_unchecked(x):
    out = _log_poly(x.num, None)
    for f, e in x.den.items():
        out = out - e * _log_poly(CTX.factor_polys[f], None)
    return out


def _trig(name, fn, odd):
    def f(x):
        x = T(x)
        if isinstance(x, Special):
            return NAN
        if x.is_const():
            c = x.const()
            if c == 0:
                return T(fn(0.0))
            return T(fn(float(c)))
        unit, _, _ = p_primitive(x.num)
        if unit < 0:
            r = uf(name, -x)
            return -r if odd else r
        return uf(name, x)

    return f


sin = _trig("sin", math.sin, True)
cos = _trig("cos", math.cos, False)


def erf(x):
    x = T(x)
    if isinstance(x, Special):
        return T(x.sign()) if x.kind != "nan" else NAN
    if x.is_const():
        return T(math.erf(float(x.const())))
    unit, _, _ = p_primitive(x.num)
    return -uf("erf", -x) if unit < 0 else uf("erf", x)


def erfinv(x):
    """odd; otherwise uninterpreted"""
    x = T(x)
    if isinstance(x, Special):
        return NAN
    if x.is_const() and x.const() == 0:
        return T(0)
    unit, _, _ = p_primitive(x.num)
    return -uf("erfinv", -x) if unit < 0 else uf("erfinv", x)


def diff(t, x):
    """derivative of a term by a variable (an oracle that does not use PyTensor's gradients)"""
    (ix,) = t_atoms(T(x))
    cache = {}

    def atom(i):
        if i not in cache:
            cache[i] = _diff_atom(i, ix, atom, term)
        return cache[i]

    def poly(p):
        out = ZERO
        for m, c in p.items():
            for k, (a, e) in enumerate(m):
                d = atom(a)
                if isinstance(d, Term) and d.is_zero():
                    continue
                rest = T(1)
                for j, (b, f) in enumerate(m):
                    f = f - 1 if j == k else f
                    if f:
                        rest = rest * ipow(atom_term(CTX.atoms[b]), f)
                out = out + Term(p_const(c)) * e * rest * d
        return out

    def term(t):
        t = T(t)
        den = ONE
        for f, e in t.den.items():
            den = den * ipow(Term(CTX.factor_polys[f]), e)
        out = poly(t.num) / den
        for f, e in t.den.items():
            d = poly(CTX.factor_polys[f])
            if not d.is_zero():
                out = out - t * e * d / Term(CTX.factor_polys[f])
        return out

    return term(T(t))


def _diff_atom(i, ix, atom, term):
    a = CTX.atoms[i]
    if i == ix:
        return ONE
    if a.kind == "var":
        return ZERO
    if a.kind == "sqrt":
        return term(Term(a.data)) / (2 * atom_term(a))
    if a.kind == "log":
        return term(Term(a.data)) / Term(a.data)
    if a.kind == "exp":
        return atom_term(a) * term(a.data)
    if a.kind == "ite":
        c, x, y = a.data
        return ite(c, term(x), term(y))
    if a.kind == "uf":
        name, args = a.data
        rules = {
            "gammaln": lambda u: uf("psi", u),
            "erf": lambda u: T(2 / math.sqrt(math.pi)) * exp(-u * u),
            "sin": cos,
            "cos": lambda u: -sin(u),
        }
        ds = [term(u) for u in args]
        if all(d.is_zero() for d in ds):
            return ZERO
        if len(args) == 1 and name in rules:
            return rules[name](args[0]) * ds[0]
    raise NotImplementedError(f"derivative of {a.kind} {a.data if a.kind == 'uf' else ''}")


# ----------------------------------------------------------------------------------------------
# numeric evaluation of a term (real semantics of every atom) - used for counterexample search
# and for validating the translator against the real code
# ----------------------------------------------------------------------------------------------
class NumEval:
    def __init__(self, assign):
        self.assign = assign  # var name -> float
        self.cache = {}

    def atom(self, i):
        if i in self.cache:
            return self.cache[i]
        a = CTX.atoms[i]
        if a.kind == "var":
            v = float(self.assign[a.name])
        elif a.kind == "sqrt":
            r = self.poly(a.data)
            v = math.sqrt(r) if r >= 0 else math.nan
        elif a.kind == "ite":
            c, x, y = a.data
            v = self(x) if c.ev(self) else self(y)
        elif a.kind == "exp":
            try:
                v = math.exp(self(a.data))
            except OverflowError:
                v = math.inf
        elif a.kind == "log":
            r = self.poly(a.data)
            v = math.log(abs(r)) if r != 0 else -math.inf
        elif a.kind == "uf":
            v = _uf_numeric(a.data[0], [self(t) for t in a.data[1]])
        else:
            raise NotImplementedError(a.kind)
        self.cache[i] = v
        return v

    def poly(self, p):
        vals = []
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                x *= self.atom(a) ** e
            vals.append(x)
        try:
            return math.fsum(vals)
        except (OverflowError, ValueError):
            return sum(vals)

    def __call__(self, t):
        if is_concrete_bool(t):
            return bool(t)
        if isinstance(t, B):
            return t.ev(self)
        t = T(t)
        if isinstance(t, Special):
            return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[t.kind]
        v = self.poly(t.num)
        for f, e in t.den.items():
            d = self.poly(CTX.factor_polys[f])
            if d == 0:
                return math.nan
            v /= d**e
        return v


def _uf_numeric(name, args):
    import scipy.special as sp
    from scipy import stats

    table = {
        "gammaln": sp.gammaln,
        "sin": math.sin,
        "cos": math.cos,
        "erf": math.erf,
        "erfinv": sp.erfinv,
        "erfc": math.erfc,
        "erfcx": sp.erfcx,
        "atan": math.atan,
        "psi": sp.digamma,
        "ive": sp.ive,
        "iv": sp.iv,
        "gammainc": sp.gammainc,
        "gammaincc": sp.gammaincc,
        "betainc": sp.betainc,
        "floor": math.floor,
        "ceil": math.ceil,
        "tanh": math.tanh,
    }
    return float(table[name](*args))


def show(t, maxlen=400):
    if isinstance(t, Special):
        return t.kind

    def sp(p):
        out = []
        for m, c in sorted(p.items(), key=lambda mc: _m_order(mc[0]), reverse=True):
            s = "*".join(CTX.atoms[a].name + (f"^{e}" if e > 1 else "") for a, e in m)
            out.append(f"{float(c):g}{'*' if s else ''}{s}" if (c != 1 or not s) else s)
            if sum(map(len, out)) > maxlen:
                out.append("...")
                break
        return " + ".join(out) or "0"

    s = sp(t.num)
    if t.den:
        s = f"({s}) / " + " ".join(
            f"({sp(CTX.factor_polys[f])})" + (f"^{e}" if e > 1 else "") for f, e in t.den.items()
        )
    return s
