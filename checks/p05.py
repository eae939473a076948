TITLE = "Time-varying system matrices act at their own time step"
ASSUMPTIONS = [
    "real arithmetic; cov_jitter = 0 through the public argument; univariate filter with diagonal H",
    "matrix values differ at every step; c, d, y, a0 symbolic and T, Z symbolic in the cases that say so",
]
from checks.kf import OUT, run_filter

TV = ["c", "d", "T", "Z", "R", "H", "Q"]


def cases(tier):
    out = []

    def add(name, bound, **kw):
        def run(S, kw=kw, bound=bound):
            S.bound(bound)
            run_filter(S, "", **kw)
        out.append((name, run))

    for f in ("standard", "sqrt", "univariate"):
        for tv in TV:
            add(f"{f}-{tv}", f"2 states, 2 series, 3 steps, time-varying {tv}; y, a0, c, d symbolic", fkind=f, k=2, p=2, r=2, n=3, sym=("a0", "c", "d"), tv=(tv,))
        for tv in (("c", "Z"), ("d", "T", "Q"), ("T", "R"), ("Z", "H", "Q"), tuple(TV)):
            add(f"{f}-{''.join(tv)}", f"2 states, 1 series, 3 steps, time-varying {', '.join(tv)}; y, a0, c, d symbolic", fkind=f, k=2, p=1, r=2, n=3, sym=("a0", "c", "d"), tv=tv)
        add(f"{f}-k1-sym", "1 state, 1 series, 2 steps, all matrices time varying and all but the covariances symbolic", fkind=f, k=1, p=1, r=1, n=2, sym=("a0", "c", "d", "T", "Z", "R"), tv=tuple(TV))
    if tier == "thorough":
        import itertools
        for f in ("standard", "univariate", "sqrt"):
            for tv in itertools.combinations(TV, 2):
                add(f"{f}-pair-{''.join(tv)}", f"2 states, 1 series, 3 steps, time-varying {tv}", fkind=f, k=2, p=1, r=2, n=3, sym=("a0", "c", "d"), tv=tv)
    return out
