TITLE = "Kalman filter moments are exact Gaussian conditioning"
ASSUMPTIONS = [
    "real arithmetic (floating-point rounding is outside the encoding); cov_jitter is set to 0 through the public argument except in the jitter cases",
    "initial state covariance, H and Q positive definite where symbolic; F positive definite",
    "SquareRootFilter receives a Cholesky factor of P0; LAPACK QR is modelled by its specification R'R = M'M with both sign conventions",
    "the univariate filter is only claimed for diagonal H",
    "observations different from the missing fill value in these cases (missing data: see P03)",
]
from checks.kf import OUT, run_filter

MOM = OUT[:6]


def cases(tier):
    out = []

    def add(name, bound, **kw):
        def run(S, kw=kw, bound=bound):
            S.bound(bound)
            S.assume_note(ASSUMPTIONS[0])
            run_filter(S, "", outputs=MOM, **kw)
        out.append((name, run))

    ALL = ("a0", "P0", "c", "d", "T", "Z", "R", "H", "Q")
    for f in ("standard", "sqrt", "univariate"):
        add(f"{f}-k2p2-means", "2 states, 2 series, 2 steps; y, a0, c, d symbolic", fkind=f, k=2, p=2, r=2, n=2, sym=("a0", "c", "d"))
        add(f"{f}-k3p2-means", "3 states, 2 series, 2 shocks, 3 steps; y, a0, c, d symbolic", fkind=f, k=3, p=2, r=2, n=3, sym=("a0", "c", "d"))
        add(f"{f}-k1p1-all-n2", "1 state, 1 series, 2 steps; everything symbolic", fkind=f, k=1, p=1, r=1, n=2, sym=ALL)
        if f != "sqrt":
            add(f"{f}-k2p2-P0", "2 states, 2 series, 2 steps; y, a0, P0 symbolic", fkind=f, k=2, p=2, r=2, n=2, sym=("P0", "a0"))
            add(f"{f}-k2p2-H", "2 states, 2 series, 2 steps; y, H symbolic", fkind=f, k=2, p=2, r=2, n=2, sym=("H",))
            add(f"{f}-k2p2-Q", "2 states, 2 series, 2 steps; y, Q, R symbolic", fkind=f, k=2, p=2, r=2, n=2, sym=("Q", "R"))
            add(f"{f}-k2p2-T", "2 states, 2 series, 2 steps; y, T, c symbolic", fkind=f, k=2, p=2, r=2, n=2, sym=("T", "c"))
            add(f"{f}-k2p2-Z", "2 states, 2 series, 1 step; y, Z, d, a0 symbolic", fkind=f, k=2, p=2, r=2, n=1, sym=("Z", "d", "a0"))
        else:
            add(f"{f}-k2p1-P0", "2 states, 1 series, 1 step; y, a0, P0 symbolic", fkind=f, k=2, p=1, r=2, n=1, sym=("P0", "a0"))
            add(f"{f}-k1p2-P0", "1 state, 2 series, 1 step; y, a0, P0 symbolic", fkind=f, k=1, p=2, r=1, n=1, sym=("P0", "a0"))
            add(f"{f}-k2p2-Z", "2 states, 2 series, 1 step; y, first row of Z symbolic", fkind=f, k=2, p=1, r=2, n=1, sym=("Z", "d"))
            add(f"{f}-k2p1-T", "2 states, 1 series, 2 steps; y, c symbolic; 1 shock", fkind=f, k=2, p=1, r=1, n=2, sym=("c", "d"))
            add(f"{f}-k1-TRQ-n2", "1 state, 1 series, 2 steps; everything symbolic, positive QR signs", fkind=f, k=1, p=1, r=1, n=2, sym=ALL, qr_signs=[1])
            add(f"{f}-k2p2-means-signs", "2 states, 2 series, 2 steps; y, a0, c, d symbolic; alternating QR signs", fkind=f, k=2, p=2, r=2, n=2, sym=("a0", "c", "d"), qr_signs=[1, -1])
    add("univariate-jitter", "2 states, 2 series, 2 steps, cov_jitter = 1/8", fkind="univariate", k=2, p=2, r=2, n=2, sym=("a0", "d"), jitter=0.125)
    if tier == "thorough":
        for f in ("standard", "univariate"):
            add(f"{f}-k1p1-all-n3", "1 state, 1 series, 3 steps; everything symbolic", fkind=f, k=1, p=1, r=1, n=3, sym=ALL)
            add(f"{f}-k2p1-all-n1", "2 states, 1 series, 1 step; everything symbolic", fkind=f, k=2, p=1, r=2, n=1, sym=ALL)
            add(f"{f}-k2p2-PH-n1", "2 states, 2 series, 1 step; P0, H, Z symbolic", fkind=f, k=2, p=2, r=2, n=1, sym=("P0", "H", "Z", "a0", "d"))
            add(f"{f}-k3p3-means-n4", "3 states, 3 series, 4 steps", fkind=f, k=3, p=3, r=3, n=4, sym=("a0", "c", "d"))
            add(f"{f}-k3p2-P0", "3 states, 2 series, 1 step; P0 symbolic", fkind=f, k=3, p=2, r=2, n=1, sym=("P0", "a0"))
    return out
