TITLE = "The filter log-likelihood is the exact predictive log density"
from checks.kf import OUT, run_filter
from checks.p01 import ASSUMPTIONS as _A

ASSUMPTIONS = _A


def cases(tier):
    out = []

    def add(name, bound, **kw):
        def run(S, kw=kw, bound=bound):
            S.bound(bound)
            run_filter(S, "", outputs=OUT[-1:], **kw)
        out.append((name, run))

    ALL = ("a0", "P0", "c", "d", "T", "Z", "R", "H", "Q")
    for f in ("standard", "sqrt", "univariate"):
        for k, p in ((1, 1), (2, 2), (2, 3), (3, 2)):
            add(f"{f}-k{k}p{p}-means", f"{k} states, {p} series, 2 steps; y, a0, c, d symbolic", fkind=f, k=k, p=p, r=k, n=2, sym=("a0", "c", "d"))
        add(f"{f}-k1p1-all-n2", "1 state, 1 series, 2 steps; everything symbolic", fkind=f, k=1, p=1, r=1, n=2, sym=ALL)
        add(f"{f}-k1p2-P0", "1 state, 2 series, 1 step; y, P0 symbolic", fkind=f, k=1, p=2, r=1, n=1, sym=("P0",))
        if f != "sqrt":
            add(f"{f}-k2p2-P0", "2 states, 2 series, 2 steps; y, a0, P0 symbolic", fkind=f, k=2, p=2, r=2, n=2, sym=("P0", "a0"))
            add(f"{f}-k2p2-H", "2 states, 2 series, 1 step; y, H, d symbolic", fkind=f, k=2, p=2, r=2, n=1, sym=("H", "d"))
            add(f"{f}-k2p2-Z", "2 states, 2 series, 1 step; y, Z symbolic", fkind=f, k=2, p=2, r=2, n=1, sym=("Z",))
            add(f"{f}-k2p1-T", "2 states, 1 series, 2 steps; y, T, c symbolic", fkind=f, k=2, p=1, r=2, n=2, sym=("T", "c"))
        else:
            add(f"{f}-k2p2-means-signs", "2 states, 2 series, 2 steps; y, a0, c, d symbolic; alternating QR signs", fkind=f, k=2, p=2, r=2, n=2, sym=("a0", "c", "d"), qr_signs=[1, -1])
    if tier == "thorough":
        for f in ("standard", "univariate"):
            add(f"{f}-k1p1-all-n3", "1 state, 1 series, 3 steps; everything symbolic", fkind=f, k=1, p=1, r=1, n=3, sym=ALL)
            add(f"{f}-k3p3-means", "3 states, 3 series, 4 steps", fkind=f, k=3, p=3, r=3, n=4, sym=("a0", "c", "d"))
            add(f"{f}-k2p2-PHZ", "2 states, 2 series, 1 step; P0, H, Z symbolic", fkind=f, k=2, p=2, r=2, n=1, sym=("P0", "H", "Z"))
    return out
