"""Running a check: cases in forked workers, obligations, replay, known findings, evidence."""
from __future__ import annotations

import contextlib
import json
import math
import os
import pickle
import random
import select
import signal
import sys
import tempfile
import time
import traceback

from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))  # the override is for development against scratch copies
FINDINGS = VERIF / "known_findings.txt"


class RealCodeError(Exception):
    """The code under analysis raised where the property requires a result."""


class SubSession:
    """What one case of a check records (lives in a worker process)."""

    def __init__(self, pid, case, tier, seed):
        self.pid, self.case, self.tier, self.seed = pid, case, tier, seed
        self.rng = random.Random(seed * 7919 + hash(case) % 1000 if False else seed)
        self.obligations = []  # (label, status, note)
        self.violations = []  # dict(key, detail, data)
        self.inconclusive = []
        self.witnesses = []
        self.validated = 0
        self.functions = set()
        self.bounds = []
        self.samples = []
        self.ops = {}
        self.assumed = set()
        self.max_violations = 12

    # -- recording ---------------------------------------------------------------------------
    def bound(self, text):
        self.bounds.append(f"{self.case}: {text}")

    def assume_note(self, text):
        self.assumed.add(text)

    @contextlib.contextmanager
    def encoding(self):
        """record which functions of /repo are executed to produce the encoding"""
        root = str(REPO / "pymc_extras")
        fns = self.functions

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(root) and not co.co_qualname.startswith("<"):
                    fns.add(co.co_filename[len(str(REPO)) + 1 :] + ":" + co.co_qualname)

        old = sys.getprofile()
        sys.setprofile(prof)
        try:
            yield
        except (RealCodeError, NotImplementedError, *control_flow()):
            raise
        except Exception as e:
            # raised by the code under analysis on an input it must accept: that is a behaviour, not a
            # failure of the harness (whose own mistakes have no frame of /repo on the traceback)
            fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(root)]
            if not fr:
                raise
            raise RealCodeError(f"{type(e).__name__}: {str(e)[:300]} ({fr[-1].filename[len(str(REPO)) + 1 :]}:{fr[-1].lineno})") from e
        finally:
            sys.setprofile(old)

    def ok(self, label, note=""):
        self.obligations.append((f"{self.case}/{label}", "discharged", note))

    def unknown(self, label, note=""):
        self.obligations.append((f"{self.case}/{label}", "unknown", note))
        self.inconclusive.append(f"{self.case}/{label}: {note}")

    def violation(self, label, detail, data=None):
        self.obligations.append((f"{self.case}/{label}", "violated", detail))
        self.violations.append({"key": f"{self.case}/{label}", "detail": detail, "data": data})

    def reachable(self, label, bs, timeout_ms=20000, ranges=None):
        """non-vacuity: some concrete input satisfies the assumptions of a harness"""
        from . import smt

        r, m = smt.check_sat(list(bs), timeout_ms, True)
        if r == "unsat":
            self.unknown(label, "harness assumptions are unsatisfiable (vacuous)")
            return False
        if r == "unknown":
            names = smt.var_names(smt.atoms_of(bs))
            if smt.find_cex(lambda ev: True, bs, names, ranges, 3000, self.seed) is None:
                self.unknown(label, "no witness for the harness assumptions")
                return False
        self.witnesses.append(f"{self.case}/{label}")
        return True

    # -- obligations -------------------------------------------------------------------------
    def equal(self, label, got, want, path=(), replay=None, ranges=None, timeout_ms=20000, tol=1e-7):
        """z3: got == want for every input on `path`; a refutation is replayed before it counts"""
        from . import smt

        if len(self.violations) >= self.max_violations:
            return False
        v = smt.prove_equal(got, want, path, timeout_ms=timeout_ms, ranges=ranges, tol=tol)
        return self._settle(label, v, replay, f"{str(got)[:160]}  ?=  {str(want)[:160]}")

    def prove(self, label, goal, path=(), replay=None, ranges=None, timeout_ms=20000):
        from . import smt

        if len(self.violations) >= self.max_violations:
            return False
        v = smt.prove(goal, path, timeout_ms=timeout_ms, ranges=ranges)
        return self._settle(label, v, replay, str(goal)[:300])

    def _settle(self, label, v, replay, text):
        if len(self.samples) < 3:
            self.samples.append({"obligation": f"{self.case}/{label}", "formula": text, "verdict": v.status})
        if v.status == "holds":
            self.ok(label, v.note)
            return True
        if v.status == "unknown":
            self.unknown(label, v.note)
            return False
        if replay is None:
            self.violation(label, v.note, {"assignment": v.assign})
            return False
        try:
            bad, detail = replay(v.assign or {})
        except Exception as e:
            self.unknown(label, f"replay failed: {type(e).__name__}: {e}")
            return False
        if bad:
            self.violation(label, detail, {"assignment": v.assign})
        else:
            self.unknown(label, f"counterexample does not reproduce on the real code: {detail}")
        return False

    def concrete(self, label, ok, detail, data=None):
        """an obligation the exploration settled without free variables left"""
        if ok:
            self.ok(label)
        else:
            self.violation(label, detail, data)
        return ok

    # -- graph cases ---------------------------------------------------------------------------
    def graph(self, name, outputs, givens, spec, assumptions=(), ranges=None, explorer=None,
              tol=1e-6, timeout_ms=20000, labels=None, validate=2, real=None, rv_handler=None,
              overrides=None, raises_ok=None, budget_terms=None, mode=None, constants=None, transform=None):
        """The standard obligation: for every path of the graph `outputs` over the symbolic
        `givens`, every output element equals the corresponding element of spec()."""
        from . import alg, ptsym, smt

        outputs = list(outputs)
        g = GraphReal(outputs, givens, mode) if real is None else real
        labels = labels or [o.name or f"out{i}" for i, o in enumerate(outputs)]
        ex = smt.Explorer(assumptions, **({"log_positive": True} | (explorer or {})))
        self.reachable(f"{name}/inputs", list(assumptions), ranges=ranges)

        def body():
            if hasattr(rv_handler, "reset"):
                rv_handler.reset()
            got = ptsym.evaluate(outputs, givens, rv_handler=rv_handler, overrides=overrides, constants=constants)
            if transform is not None:
                got = transform(got)
            want = spec()
            return got, want

        npaths = 0
        direct = set()
        for a in givens.values():
            for x in np.asarray(a, dtype=object).flat:
                direct |= alg.t_atoms(x) if isinstance(x, alg.Term) else set(x.atoms) if isinstance(x, alg.B) else set()
        allnames = sorted(smt.var_names(direct))
        for path, (kind, res) in ex.run(body):
            npaths += 1
            if kind == "raise":
                def rep(assign, e=res):
                    try:
                        g({n: 0.5 for n in allnames} | assign)
                    except Exception as e2:
                        if "Bad input argument" in str(e2):
                            raise
                        return True, f"raises {type(e2).__name__}: {str(e2)[:200]}"
                    return False, f"encoding raised {type(e).__name__}: {e} but the real code did not"
                v = smt.prove(False, path, ranges=ranges)
                if v.status == "holds":
                    continue
                self._settle(f"{name}/no-error", v, rep, f"{type(res).__name__}: {res}")
                continue
            got, want = res
            for k, (a, w) in enumerate(zip(got, want)):
                if w is None:
                    continue
                a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
                w = np.asarray(w, dtype=object) if not isinstance(w, np.ndarray) else w
                if a.shape != w.shape:
                    self.violation(f"{name}/{labels[k]}/shape", f"shape {a.shape}, expected {w.shape}")
                    continue
                for i in np.ndindex(*a.shape):
                    def rep(assign, k=k, i=i, w=w):
                        full = {n: 0.5 for n in allnames} | assign
                        y = alg.NumEval(full)(alg.T(w[i]))
                        try:
                            x = float(np.asarray(g(full)[k])[i])
                        except Exception as e:
                            if "Bad input argument" in str(e):
                                raise
                            return True, f"{labels[k]} raises {type(e).__name__}: {str(e)[:200]}, required {y!r} at {fmt(full)}"
                        bad = not close(x, y, tol)
                        return bad, f"{labels[k]}[{','.join(map(str, i))}] = {x!r}, required {y!r} at {fmt(full)}"
                    lab = f"{name}/{labels[k]}" + (f"[{','.join(map(str, i))}]" if i else "") + (f"@p{npaths}" if npaths > 1 else "")
                    self.equal(lab, a[i], w[i], path, rep, ranges, timeout_ms)
            if npaths == 1 and validate:
                self._validate(name, g, got, path, allnames, ranges, validate, tol)
        if npaths == 0:
            self.unknown(f"{name}", "no feasible path")

    def _validate(self, name, g, got, path, names, ranges, n, tol):
        """push concrete inputs through the encoding and through the real compiled code"""
        from . import alg, smt

        for k in range(n):
            a = smt.find_cex(lambda ev: True, path, names, ranges, 2000, self.seed + 17 * k)
            if a is None and k == 0:
                r, m = smt.check_sat(list(path), 5000, True)
                if r == "sat":
                    a = {nm: 0.5 for nm in names} | smt.model_assignment(m, names)
                    for nm in names:  # the solver knows nothing of positive variables the path does not mention
                        at = alg.CTX.by_key.get(("var", nm))
                        if at is not None and at.positive and a[nm] <= 0:
                            a[nm] = 0.5
            if a is None:
                return
            try:
                ev = alg.NumEval(a)
                enc = [np.array([float(ev(alg.T(x))) for x in np.asarray(o, dtype=object).flat]) for o in got]
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            real = g(a)
            for o, r in zip(enc, real):
                r = np.asarray(r, dtype=float).ravel()
                if o.shape != r.shape or not all(close(x, y, 1e-5) for x, y in zip(o, r)):
                    self.unknown(f"{name}/translator", f"encoding {o} and real code {r} disagree at {fmt(a)}")
                    return
            self.validated += 1


def control_flow():
    from . import alg, smt

    return smt.Infeasible, smt.Inconclusive, alg.TooBig, alg.ForkLimit


def close(x, y, tol):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * (1 + abs(x) + abs(y))


def fmt(a, limit=24):
    items = sorted(a.items(), key=lambda kv: (kv[1] == 0.5, kv[0]))  # 0.5 fills inputs the solver left free
    s = ", ".join(f"{k}={v:.6g}" if isinstance(v, float) else f"{k}={v}" for k, v in items[:limit])
    return "{" + s + (", ..." if len(items) > limit else "") + "}"


class GraphReal:
    """The same graph compiled by PyTensor and run on concrete inputs."""

    def __init__(self, outputs, givens, mode=None):
        self.outputs, self.givens, self.fn, self.mode = outputs, givens, None, mode

    def __call__(self, assign):
        import pytensor

        from . import alg

        if self.fn is None:
            with real_time():
                self.fn = pytensor.function(
                    list(self.givens), self.outputs, on_unused_input="ignore",
                    mode=self.mode or "FAST_COMPILE",
                )
        ev = alg.NumEval(assign)
        vals = []
        for v, a in self.givens.items():
            a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
            if a.dtype == object:
                x = np.empty(a.shape, dtype=float)
                for i in np.ndindex(*a.shape):
                    e = a[i]
                    x[i] = ev(e) if isinstance(e, alg.B) else ev(alg.T(e))
                a = x
            vals.append(a.astype(v.type.dtype))
        return self.fn(*vals)


@contextlib.contextmanager
def real_time():
    from . import alg

    old, alg.CTX.explorer = alg.CTX.explorer, None
    try:
        yield
    finally:
        alg.CTX.explorer = old


# ----------------------------------------------------------------------------------------------
def _worker(pid, case, fn, tier, seed, path):
    from . import alg, ptsym, smt

    t0 = time.time()
    alg.reset()
    smt.STATS.__init__()
    ptsym.OPS_SEEN.clear()
    S = SubSession(pid, case, tier, seed)
    err = None
    try:
        fn(S)
    except RealCodeError as e:
        S.violation("raises", f"the real code raises {e}")
    except (smt.Inconclusive, alg.TooBig, NotImplementedError, alg.ForkLimit) as e:
        err = f"{case}: {type(e).__name__}: {e}"
        if os.environ.get("VDEBUG") == "2":
            traceback.print_exc()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = f"{case}: {type(e).__name__}: {str(e)[:400]} ({tb.filename}:{tb.lineno})"
        if os.environ.get("VDEBUG") == "2":
            traceback.print_exc()
    out = {
        "obligations": S.obligations, "violations": S.violations, "inconclusive": S.inconclusive,
        "witnesses": S.witnesses, "validated": S.validated, "functions": S.functions,
        "bounds": S.bounds, "samples": S.samples, "assumed": S.assumed, "error": err,
        "ops": dict(ptsym.OPS_SEEN), "stats": dict(vars(smt.STATS)), "wall": time.time() - t0,
    }
    with open(path, "wb") as f:
        pickle.dump(out, f)


def run_cases(pid, cases, tier, seed, jobs=8, limit=820, only=None):
    """fork one worker per case (isolated term contexts), at most `jobs` at a time"""
    results = {}
    t_end = time.time() + limit
    with tempfile.TemporaryDirectory(prefix="vchk") as tmp:
        todo = list(cases)
        assert len({n for n, _ in todo}) == len(todo), "case names must be unique"
        serial = 0
        running = {}
        while todo or running:
            while todo and len(running) < jobs and time.time() < t_end:
                name, fn = todo.pop(0)
                serial += 1
                path = os.path.join(tmp, f"{serial}.pkl")
                sys.stdout.flush()
                sys.stderr.flush()
                p = os.fork()
                if p == 0:
                    try:
                        _worker(pid, name, fn, tier, seed, path)
                        sys.stdout.flush()
                        sys.stderr.flush()
                    finally:
                        os._exit(0)
                running[p] = (name, path)
            if time.time() >= t_end:
                for p, (name, _) in running.items():
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    results[name] = {"error": f"{name}: time limit"}
                for name, _ in todo:
                    results[name] = {"error": f"{name}: time limit (not started)"}
                break
            p, _ = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                time.sleep(0.02)
                continue
            if p not in running:
                continue
            name, path = running.pop(p)
            try:
                with open(path, "rb") as f:
                    results[name] = pickle.load(f)
            except Exception:
                results[name] = {"error": f"{name}: worker died"}
            if os.environ.get("VDEBUG"):
                r = results[name]
                print(f"  [{name}] {r.get('wall', 0):.1f}s  obl={len(r.get('obligations', []))} viol={len(r.get('violations', []))} "
                      f"inc={len(r.get('inconclusive', []))} val={r.get('validated')} paths={r.get('stats', {}).get('paths')} err={r.get('error')}", flush=True)
    return results


def load_findings(pid):
    out = {}
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                rest = line[len(f"finding: property={pid} ") :]
                key, _, what = rest.partition(" ")
                out[key.removeprefix("key=")] = what
    return out


def finish(pid, tier, seed, level, results, t0, title, assumptions, extra):
    findings = load_findings(pid)
    obl = [o for r in results.values() for o in r.get("obligations", [])]
    viol = [v for r in results.values() for v in r.get("violations", [])]
    inc = [x for r in results.values() for x in r.get("inconclusive", [])]
    errs = [r["error"] for r in results.values() if r.get("error")]
    stats = {}
    ops = {}
    for r in results.values():
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r.get("ops", {}).items():
            ops[k] = ops.get(k, 0) + v
    new, known = [], {}
    for v in viol:
        hit = next((k for k in findings if v["key"] == k or (k.endswith("*") and v["key"].startswith(k[:-1]))), None)
        if hit is None:
            new.append(v)
        else:
            known[hit] = v
    for k in known:
        print(f"KNOWN-FINDING: property={pid} key={k} {findings[k]}")
    fns = sorted({f for r in results.values() for f in r.get("functions", ())})
    samples = [s for r in results.values() for s in r.get("samples", [])][:12]
    cov = {
        "states": int(stats.get("paths", 0)),
        "transitions": int(sum(ops.values())) + int(stats.get("branch_queries", 0)),
        "traces_validated_against_impl": int(sum(r.get("validated", 0) for r in results.values())),
        "samples": samples,
        "meaning_of_counts": "states = feasible symbolic paths explored to the end; transitions = IR operations "
        "interpreted symbolically plus branch-feasibility queries; traces_validated_against_impl = concrete "
        "runs on which the encoding and the real code were compared",
        "obligations": len(obl),
        "discharged": sum(o[1] == "discharged" for o in obl),
        "solver_queries": int(stats.get("queries", 0)),
        "solver_unsat": int(stats.get("unsat", 0)),
        "solver_sat": int(stats.get("sat", 0)),
        "solver_unknown": int(stats.get("unknown", 0)),
        "solver_time_s": round(stats.get("time", 0.0), 3),
        "functions_encoded": fns,
        "ir_ops": ops,
        "bounds": [b for r in results.values() for b in r.get("bounds", [])],
        "non_vacuity_witnesses": sum(len(r.get("witnesses", [])) for r in results.values()),
        "cases": {n: round(r.get("wall", 0), 2) for n, r in results.items()},
        "known_findings": sorted(known),
        "inconclusive": (inc + errs)[:40],
    } | extra
    ass = sorted({a for r in results.values() for a in r.get("assumed", ())} | set(assumptions))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": ass, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    rd = VERIF / "evidence" / "replays"
    if new:
        rd.mkdir(exist_ok=True)
        for i, v in enumerate(new[:20]):
            f = rd / f"{pid}-{i}.json"
            f.write_text(json.dumps({"property": pid, "tier": tier, "seed": seed, **v}, indent=1, default=str))
            print(f"VIOLATION property={pid} replay={f.relative_to(VERIF)}  {v['key']}: {v['detail']}")
    for x in (inc + errs)[:20]:
        print(f"INCONCLUSIVE property={pid} {x}")
    print(f"{pid} {title}: {cov['discharged']}/{len(obl)} obligations discharged, {len(new)} violated, "
          f"{len(known)} known, {len(inc) + len(errs)} inconclusive; {cov['states']} paths, "
          f"{cov['solver_queries']} queries, solver {cov['solver_time_s']} s, wall {ev['wall_s']} s")
    if new:
        return 1
    # an obligation without an answer is reported and recorded, and is not a violation; when most of the
    # exploration is lost the check gives no verdict
    if len(errs) * 2 > len(results) or cov["discharged"] * 2 < len(obl):
        return 2
    if not obl:
        print(f"INCONCLUSIVE property={pid} nothing was checked")
        return 2
    return 0
