"""Queries: everything a check concludes is concluded by a z3 verdict obtained here."""
from __future__ import annotations

import math
import random
import time

from fractions import Fraction

from . import alg
from .alg import B, CTX, NumEval, Special, T, Term, is_concrete_bool, z3, zpoly


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.branch_queries = 0


STATS = Stats()


def bz(b):
    if is_concrete_bool(b):
        return z3.BoolVal(bool(b))
    return b.z


def closure(ids):
    """atoms mentioned by the definitions of `ids`, transitively"""
    seen = set()
    todo = list(ids)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = CTX.atoms[i]
        if a.deps is None:
            if a.kind == "sqrt" or a.kind == "log":
                a.deps = alg.p_atoms(a.data)
            elif a.kind == "ite":
                c, x, y = a.data
                a.deps = set(c.atoms) | alg.t_atoms(x) | alg.t_atoms(y)
            elif a.kind == "exp":
                a.deps = alg.t_atoms(a.data)
            elif a.kind == "uf":
                a.deps = set().union(*[alg.t_atoms(t) for t in a.data[1]]) if a.data[1] else set()
            else:
                a.deps = set()
        todo.extend(a.deps)
    return seen


def den_z(t):
    z = z3.RealVal(1)
    for f, e in t.den.items():
        for _ in range(e):
            z = z * zpoly(CTX.factor_polys[f])
    return z


def def_constraints(ids, monotone=True):
    out = []
    ids = closure(ids)
    exps, ufs, logs = [], {}, []
    for i in sorted(ids):
        a = CTX.atoms[i]
        if a.kind == "var":
            if a.positive:
                out.append(a.z > 0)
        elif a.kind == "sqrt":
            out.append(a.z >= 0)
            out.append(a.z * a.z == zpoly(a.data))
        elif a.kind == "ite":
            c, x, y = a.data
            out.append(z3.Implies(c.z, a.z * den_z(x) == zpoly(x.num)))
            out.append(z3.Implies(z3.Not(c.z), a.z * den_z(y) == zpoly(y.num)))
        elif a.kind == "exp":
            out.append(a.z > 0)
            exps.append(a)
        elif a.kind == "log":
            logs.append(a)
        elif a.kind == "uf":
            if a.positive:
                out.append(a.z > 0)
            ufs.setdefault(a.data[0], []).append(a)
    if monotone:
        for i, a in enumerate(exps):
            for b in exps[:i]:
                d = a.data - b.data
                if isinstance(d, Special):
                    continue
                s = alg.lt(a.data, b.data)
                g = alg.gt(a.data, b.data)
                out.append(z3.Implies(bz(s), a.z < b.z))
                out.append(z3.Implies(bz(g), a.z > b.z))
            s0 = alg.gt(a.data, 0)
            s1 = alg.lt(a.data, 0)
            out.append(z3.Implies(bz(s0), a.z > 1))
            out.append(z3.Implies(bz(s1), a.z < 1))
            out.append(z3.Implies(bz(alg.eq(a.data, 0)), a.z == 1))
        for i, a in enumerate(logs):
            for b in logs[:i]:
                out.append(z3.Implies(zpoly(a.data) < zpoly(b.data), a.z < b.z))
                out.append(z3.Implies(zpoly(a.data) > zpoly(b.data), a.z > b.z))
            out.append(z3.Implies(zpoly(a.data) > 1, a.z > 0))
            out.append(z3.Implies(zpoly(a.data) < 1, a.z < 0))
            out.append(z3.Implies(zpoly(a.data) == 1, a.z == 0))
    for name, lst in ufs.items():
        for i, a in enumerate(lst):
            for b in lst[:i]:
                if len(a.data[1]) != len(b.data[1]):
                    continue
                same = z3.And(*[bz(alg.eq(x, y)) for x, y in zip(a.data[1], b.data[1])])
                out.append(z3.Implies(same, a.z == b.z))
    return out


def raw_check(constraints, timeout_ms=20000, want_model=False):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for c in constraints:
        s.add(c)
    r = str(s.check())
    STATS.queries += 1
    STATS.time += time.time() - t0
    setattr(STATS, r, getattr(STATS, r) + 1)
    m = s.model() if (r == "sat" and want_model) else None
    return (r, m) if want_model else r


def atoms_of(bs):
    s = set()
    for b in bs:
        if isinstance(b, B):
            s |= b.atoms
    return s


def check_sat(bs, timeout_ms=20000, want_model=False, defs=True):
    """satisfiability of a conjunction of B's together with the definitions of their atoms"""
    for b in bs:
        if is_concrete_bool(b) and not b:
            return ("unsat", None) if want_model else "unsat"
    cons = [bz(b) for b in bs]
    if defs:
        cons += def_constraints(atoms_of(bs))
    return raw_check(cons, timeout_ms, want_model)


def model_assignment(model, names):
    out = {}
    for n in names:
        v = model.eval(z3.Real(n), model_completion=True)
        if z3.is_rational_value(v):
            out[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        elif z3.is_algebraic_value(v):
            w = v.approx(20)
            out[n] = float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
        else:
            out[n] = 0.0
    return out


SNAP = 1e-9
DROP = 1e-11


def common_nums(a, b):
    den = dict(a.den)
    for f, e in b.den.items():
        if den.get(f, 0) < e:
            den[f] = e
    return alg._raise(a.num, a.den, den), alg._raise(b.num, b.den, den)


def snap(p, q):
    """Identify coefficients that differ only by floating-point rounding of embedded constants."""
    scale = max([abs(float(c)) for c in p.values()] + [abs(float(c)) for c in q.values()] + [0.0])
    if scale == 0:
        return p, q
    p2, q2 = {}, {}
    for m in set(p) | set(q):
        c, d = p.get(m, 0), q.get(m, 0)
        if c == d:
            if c != 0:
                p2[m] = q2[m] = c
            continue
        fc, fd = float(c), float(d)
        if abs(fc - fd) <= SNAP * max(abs(fc), abs(fd)) or abs(fc - fd) <= DROP * scale:
            c = d = c if c != 0 else d
            p2[m] = q2[m] = c
            continue
        if c != 0:
            p2[m] = c
        if d != 0:
            q2[m] = d
    return p2, q2


class Verdict:
    def __init__(self, status, assign=None, note=""):
        self.status = status  # 'holds' | 'cex' | 'unknown'
        self.assign = assign
        self.note = note

    def __bool__(self):
        return self.status == "holds"

    def __repr__(self):
        return f"Verdict({self.status}, {self.note})"


def var_names(ids):
    return [CTX.atoms[i].name for i in sorted(closure(ids)) if CTX.atoms[i].kind == "var"]


def find_cex(goal_false, assumptions, names, ranges=None, tries=400, seed=1, base=None):
    """Concrete point of the *encoding* (with exact meaning of exp/log/...) refuting the goal.

    Only used after z3 has answered 'sat' with atoms whose meaning z3 does not know, or
    'unknown'; never used to conclude that a property holds."""
    rng = random.Random(seed)
    for k in range(tries):
        a = {}
        keep = rng.random() if base else 0
        for n in names:
            if base and n in base and rng.random() < keep:
                a[n] = base[n]  # stay near a model of the solver, which meets equality constraints
                continue
            at = CTX.by_key.get(("var", n))
            r = (ranges or {}).get(n)
            if r is not None:
                a[n] = rng.choice(r) if isinstance(r, list) else rng.uniform(*r)
            elif at is not None and at.positive:
                a[n] = math.exp(rng.uniform(-1.2, 1.2))
            else:
                a[n] = rng.choice([rng.uniform(-2, 2), rng.uniform(-0.5, 0.5), float(rng.randint(-3, 3))])
        ev = NumEval(a)
        try:
            if all(ev(b) for b in assumptions) and goal_false(ev):
                return a
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
    return None


def prove_equal(a, b, assumptions=(), timeout_ms=20000, ranges=None, tol=1e-7):
    a, b = T(a), T(b)
    if isinstance(a, Special) or isinstance(b, Special):
        same = isinstance(a, Special) and isinstance(b, Special) and a.kind == b.kind
        if same:
            return Verdict("holds")
        # a finite/infinite mismatch holds on the whole path: any point of the path refutes
        other = [t for t in (a, b) if not isinstance(t, Special)]
        names = var_names(atoms_of(assumptions) | set().union(*[alg.t_atoms(t) for t in other], set()))
        r, m = check_sat(list(assumptions), timeout_ms, True)
        if r == "unsat":
            return Verdict("holds", note="path infeasible")
        assign = find_cex(lambda ev: True, assumptions, names, ranges)
        if assign is None and m is not None:
            assign = model_assignment(m, names)
        return Verdict("cex", assign, f"{a!r} vs {b!r}")
    p, q = common_nums(a, b)
    p, q = snap(p, q)
    goal = z3.Not(zpoly(p) == zpoly(q))
    # log-product rule: sum c_i log x_i + r == 0  <=  r == 0 and prod x_i^c_i == 1
    logs = p != q and any(CTX.atoms[i].kind == "log" for i in alg.p_atoms(p) | alg.p_atoms(q))
    if logs and _log_product_rule(a - b, assumptions, timeout_ms):
        return Verdict("holds", note="log-product")
    r = raw_check([goal], min(timeout_ms, 10000))
    if r == "unsat":
        return Verdict("holds")
    if logs:
        d = _resolve_logs(a - b, assumptions)
        if d is not None:
            scale = max([1.0, *(abs(float(c)) for t in (a, b) for c in t.num.values())])
            if not d.den:
                d = Term({m: c for m, c in d.num.items() if abs(float(c)) > DROP * scale})
            p2, q2 = snap(*common_nums(d, alg.ZERO))
            if p2 == q2 or raw_check([z3.Not(zpoly(p2) == zpoly(q2))], timeout_ms) == "unsat" or _log_product_rule(d, assumptions, timeout_ms):
                return Verdict("holds", note="log-resolution")
    if all(isinstance(x, B) or x for x in assumptions) is False:
        return Verdict("holds", note="vacuous")
    ids = alg.p_atoms(p) | alg.p_atoms(q) | atoms_of(assumptions)
    names = var_names(ids | alg.t_atoms(a) | alg.t_atoms(b))

    def differs(ev):
        x, y = ev(a), ev(b)
        if math.isnan(x) or math.isnan(y):
            return False
        return abs(x - y) > tol * (1 + abs(x) + abs(y))

    cons = [goal] + [bz(x) for x in assumptions] + def_constraints(ids)
    r, m = raw_check(cons, timeout_ms, True)
    if r == "unsat":
        return Verdict("holds")
    assign = find_cex(differs, assumptions, names, ranges)
    if assign is None and r == "sat":
        cand = model_assignment(m, names)
        ev = NumEval(cand)
        try:
            if differs(ev):
                assign = cand
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
        if assign is None:
            assign = find_cex(differs, assumptions, names, ranges, 1500, base=cand)
    if assign is not None:
        ev = NumEval(assign)
        return Verdict("cex", assign, f"{ev(a)!r} vs {ev(b)!r}")
    return Verdict("unknown", note=f"z3: {r}")


def _resolve_logs(d, assumptions):
    """log v^2 -> 2 log |v| and log(if c then a else b) -> log a, where the path settles the sign / the condition"""
    if isinstance(d, Special):
        return None

    def holds(b):
        if is_concrete_bool(b):
            return bool(b)
        return check_sat([*assumptions, alg.bnot(b)], 3000) == "unsat"

    sub = {}
    for i in alg.p_atoms(d.num):
        at = CTX.atoms[i]
        if at.kind != "log":
            continue
        t = Term(at.data)
        if len(at.data) == 1:
            (m, c) = next(iter(at.data.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 2:
                v = alg.atom_term(CTX.atoms[m[0][0]])
                if holds(alg.gt(v, 0)):
                    t = v
                elif holds(alg.lt(v, 0)):
                    t = -v
                if t.key() in (v.key(), (-v).key()):
                    sub[i] = 2 * alg.log_unchecked(_resolve_ite(t, holds))
                    continue
        r = _resolve_ite(t, holds)
        if r.key() != t.key():
            sub[i] = alg.log_unchecked(r)
    if not sub:
        return None
    return _substitute(d, sub)


def _resolve_ite(t, holds, depth=0):
    sub = {}
    for i in alg.p_atoms(t.num):
        at = CTX.atoms[i]
        if at.kind == "ite":
            c, x, y = at.data
            if holds(c):
                sub[i] = T(x)
            elif holds(alg.bnot(c)):
                sub[i] = T(y)
    if not sub:
        return t
    return _resolve_ite(_substitute(t, sub), holds, depth + 1) if depth < 4 else t


def _substitute(t, sub):
    out = alg.ZERO
    for m, c in t.num.items():
        x = Term(alg.p_const(c))
        for a, e in m:
            x = x * alg.ipow(sub.get(a, alg.atom_term(CTX.atoms[a])), e)
        out = out + x
    return out * Term(alg.p_const(1), dict(t.den)) if t.den else out


def _log_product_rule(d, assumptions, timeout_ms):
    if isinstance(d, Special) or not d.num:
        return False
    # d.num = sum_i c_i * log_i + rest, with c_i = k_i * c for one polynomial c and numbers k_i
    coef, rest = {}, {}
    for m, c in d.num.items():
        hit = [a for a, _ in m if CTX.atoms[a].kind == "log"]
        if not hit:
            rest[m] = c
            continue
        if len(hit) > 1 or dict(m)[hit[0]] != 1:
            return False
        coef.setdefault(hit[0], {})[tuple(x for x in m if x[0] != hit[0])] = c
    if not coef:
        return False
    scale = max(abs(float(c)) for c in d.num.values())
    if any(abs(float(c)) > DROP * scale for c in rest.values()):
        return False
    base = next(iter(coef.values()))
    lead = max(base, key=lambda m: abs(float(base[m])))
    logs = []
    for a, p in coef.items():
        if lead not in p:
            return False
        k = Fraction(p[lead]) / Fraction(base[lead])
        k = k.limit_denominator(64)
        x, y = snap(p, alg.p_scale(base, k))
        if x != y:
            return False
        logs.append((CTX.atoms[a].data, k))
    shrink = max(abs(k) for _, k in logs)
    logs = [(x, k / shrink) for x, k in logs]
    den = 1
    logs = [(x, Fraction(c).limit_denominator(64)) for x, c in logs]
    for _, c in logs:
        den = den * c.denominator // math.gcd(den, c.denominator)
    num, dd = alg.ONE, alg.ONE
    try:
        for x, c in logs:
            k = int(c * den)
            if abs(k) > 24:
                return False
            if k > 0:
                num = num * alg.ipow(Term(x), k)
            else:
                dd = dd * alg.ipow(Term(x), -k)
    except alg.TooBig:
        return False
    p, q = snap(*common_nums(num, dd))
    return raw_check([z3.Not(zpoly(p) == zpoly(q))], timeout_ms) == "unsat"


def prove(goal, assumptions=(), timeout_ms=20000, ranges=None):
    """goal: B.  Valid under the assumptions?"""
    if is_concrete_bool(goal):
        if goal:
            return Verdict("holds")
        names = var_names(atoms_of(assumptions))
        r, m = check_sat(list(assumptions), timeout_ms, True)
        if r == "unsat":
            return Verdict("holds", note="vacuous")
        assign = find_cex(lambda ev: True, assumptions, names, ranges)
        if assign is None and m is not None:
            assign = model_assignment(m, names)
        return Verdict("cex", assign)
    r, m = check_sat([*assumptions, alg.bnot(goal)], timeout_ms, True)
    if r == "unsat":
        return Verdict("holds")
    names = var_names(goal.atoms | atoms_of(assumptions))
    assign = None
    if r == "sat":
        cand = model_assignment(m, names)
        ev = NumEval(cand)
        try:
            if all(ev(x) for x in assumptions) and not ev(goal):
                assign = cand
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    if assign is None:
        assign = find_cex(lambda ev: not ev(goal), assumptions, names, ranges)
    if assign is not None:
        return Verdict("cex", assign)
    return Verdict("unknown", note=f"z3: {r}")


# ----------------------------------------------------------------------------------------------
# path exploration
# ----------------------------------------------------------------------------------------------
class Explorer:
    """Depth-first exploration of every feasible path of a function over symbolic values."""

    def __init__(
        self, assumptions=(), fork_all=False, max_paths=4000, timeout_ms=5000, log_positive=False
    ):
        self.assumptions = list(assumptions)
        self.fork_all = fork_all
        self.log_positive = log_positive
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.path = []
        self.prefix = []
        self.pending = []
        self.cache = {}
        self.frames = None

    def assume(self, b):
        """add an assumption on the current path"""
        b = alg.tobool(b)
        if is_concrete_bool(b):
            if not b:
                raise Infeasible()
            return
        self.path.append(b)
        if self._sat([]) == "unsat":
            raise Infeasible()

    def _sat(self, extra):
        bs = self.assumptions + self.path + extra
        key = frozenset(b.z.get_id() if isinstance(b, B) else bool(b) for b in bs)
        hit = self.cache.get(key)
        if hit is None:
            STATS.branch_queries += 1
            # the formulas are kept alive with the verdict: z3 recycles the ids of dead terms
            hit = self.cache[key] = (check_sat(bs, self.timeout_ms), bs)
        return hit[0]

    def resolve(self, b):
        """truth value of b when the path condition already settles it, else None"""
        if self._sat([b]) == "unsat":
            return False
        if self._sat([alg.bnot(b)]) == "unsat":
            return True
        return None

    def surely(self, b):
        b = alg.tobool(b)
        if is_concrete_bool(b):
            return bool(b)
        return self._sat([alg.bnot(b)]) == "unsat"

    def decide(self, b):
        k = len(self.taken)
        if k < len(self.prefix):
            v, forced = self.prefix[k]
        else:
            if self._sat([b]) == "unsat":
                v, forced = False, True
            elif self._sat([alg.bnot(b)]) == "unsat":
                v, forced = True, True
            else:
                v, forced = True, False
                self.pending.append(self.taken + [(False, False)])
        self.taken.append((v, forced))
        self.path.append(b if v else alg.bnot(b))
        return v

    def run(self, fn, *args, **kwargs):
        """yield (path_condition, result or exception) for every feasible path"""
        self.pending = [[]]
        n = 0
        while self.pending:
            self.prefix = self.pending.pop()
            self.taken = []
            self.path = []
            n += 1
            if n > self.max_paths:
                raise Inconclusive(f"more than {self.max_paths} paths")
            old = CTX.explorer
            CTX.explorer = self
            try:
                try:
                    out = ("ok", fn(*args, **kwargs))
                except Infeasible:
                    continue
                except (Inconclusive, alg.TooBig, NotImplementedError, alg.ForkLimit):
                    raise
                except Exception as e:  # an outcome of the code under analysis
                    out = ("raise", e)
            finally:
                CTX.explorer = old
            STATS.paths += 1
            yield list(self.assumptions) + list(self.path), out


class Infeasible(Exception):
    pass
