TITLE = "Missing observations are marginalised, never treated as data"
ASSUMPTIONS = [
    "real arithmetic; cov_jitter = 0 through the public argument (2**-10, part of the reference too, for the univariate filter, which divides by it when nothing is observed)",
    "missing entries are NaN or equal to the missing fill value (both are explored: NaN by pattern, the fill value by forking on y == fill)",
]
import numpy as np

from checks.kf import OUT, run_filter
from vlib import alg, ptsym


def ydata(n, p, nan):
    y = alg.array("y", (n, p))
    for t, i in nan:
        y[t, i] = alg.NAN
    return y


def cases(tier):
    out = []

    def add(name, bound, nan=(), **kw):
        def run(S, kw=kw, bound=bound):
            S.bound(bound)
            if kw["fkind"] == "univariate":
                kw = {**kw, "jitter": 2.0**-10}
            run_filter(S, "", y=ydata(kw["n"], kw["p"], nan), **kw)
        out.append((name, run))

    for f in ("standard", "sqrt", "univariate"):
        pats = {
            "first-of-two": [(0, 0)], "second-of-two": [(0, 1)], "whole-first-row": [(0, 0), (0, 1)],
            "alternating": [(0, 0), (1, 1)], "row-then-part": [(0, 0), (0, 1), (1, 0)],
        }
        for nm, nan in pats.items():
            add(f"{f}-nan-{nm}", f"2 states, 2 series, 2 steps, NaN at {nan}; y, a0, c, d symbolic", nan, fkind=f, k=2, p=2, r=2, n=2, sym=("a0", "c", "d"))
        add(f"{f}-fill-fork", "2 states, 2 series, 1 step; every subset of the row may equal the fill value", fkind=f, k=2, p=2, r=2, n=1, sym=("a0", "d"), mask_y=False)
        add(f"{f}-fill-fork-n2", "1 state, 1 series, 2 steps; every subset of observations may equal a user-chosen fill value", fkind=f, k=1, p=1, r=1, n=2, sym=("a0", "c", "d"), mask_y=False, fill=-17.0)
        add(f"{f}-all-missing", "2 states, 2 series, 2 steps, nothing observed; everything but covariances symbolic", [(0, 0), (0, 1), (1, 0), (1, 1)], fkind=f, k=2, p=2, r=2, n=2, sym=("a0", "c", "d") + (("T",) if f != "sqrt" else ()))
        add(f"{f}-p3-middle", "2 states, 3 series, 1 step, middle series missing; H dense", [(0, 1)], fkind=f, k=2, p=3, r=2, n=1, sym=("a0", "d"))
    for f in ("standard", "univariate"):
        add(f"{f}-nan-cov", "2 states, 2 series, 2 steps, one element missing; P0 symbolic", [(0, 0)], fkind=f, k=2, p=2, r=2, n=2, sym=("P0",))
        add(f"{f}-nan-H", "2 states, 2 series, 1 step, one element missing; H symbolic", [(0, 1)], fkind=f, k=2, p=2, r=2, n=1, sym=("H",))
        add(f"{f}-k1-gap", "1 state, 1 series, 3 steps with a gap; a0, c, d, P0, Q symbolic", [(1, 0)], fkind=f, k=1, p=1, r=1, n=3, sym=("a0", "c", "d", "P0", "Q"))
    add("sqrt-k1-gap", "1 state, 1 series, 3 steps with a gap; a0, c, d symbolic", [(1, 0)], fkind="sqrt", k=1, p=1, r=1, n=3, sym=("a0", "c", "d"))
    return out
