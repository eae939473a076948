TITLE = "Structural components follow their documented equations and add up"
ASSUMPTIONS = [
    "real arithmetic; the law of the observed series is compared through its noise-free path and its covariance under shocks at times 1 and 2, over the stated number of steps",
    "frequencies 2*pi*j/s are the doubles NumPy computes; their cosines and sines are exact rationals within 1e-16",
    "for order >= 3 the trend convention is that each level absorbs all higher derivatives in one step",
]
import numpy as np
import pytensor.tensor as pt

from checks import ssm
from vlib import alg, ptsym

Z0 = alg.T(0)


def sq(x):
    return alg.ipow(x, 2)


# ---- oracles: each component as (parameter values) -> path(n), [(variance, response(n))...], H ----
class Trend:
    def __init__(self, order=2, innov=None, name="LevelTrend"):
        self.order = order
        innov = order if innov is None else innov
        self.mask = [i < innov for i in range(order)] if isinstance(innov, int) else [bool(x) for x in innov]
        self.innov, self.name = innov, name

    def make(self, st):
        return st.LevelTrendComponent(order=self.order, innovations_order=self.innov, name=self.name)

    def step(self, x):
        return [sum(x[i:], Z0) for i in range(len(x))]

    def run(self, x, n):
        out = []
        for _ in range(n):
            out.append(x[0])
            x = self.step(x)
        return out

    def path(self, v, n, data):
        return self.run(list(v["initial_trend"]), n)

    def shocks(self, v, n, data):
        sig = iter(v["sigma_trend"]) if any(self.mask) else iter(())
        for i, on in enumerate(self.mask):
            if on:
                e = [alg.T(int(i == j)) for j in range(self.order)]
                yield sq(next(sig)), lambda s, e=e: [Z0] * s + self.run(e, n - s)

    def H(self, v):
        return Z0


class Meas:
    def __init__(self, name="obs"):
        self.name = name

    def make(self, st):
        return st.MeasurementError(self.name)

    def path(self, v, n, data):
        return [Z0] * n

    def shocks(self, v, n, data):
        return ()

    def H(self, v):
        return sq(v[f"sigma_{self.name}"][()])


class AR(Meas):
    def __init__(self, order, name="AutoRegressive"):
        self.order, self.name = order, name
        self.lags = list(range(1, order + 1)) if isinstance(order, int) else [i + 1 for i, o in enumerate(order) if o]

    def make(self, st):
        return st.AutoregressiveComponent(order=self.order, name=self.name)

    def shocks(self, v, n, data):
        c = [Z0] * max(self.lags)
        for lag, x in zip(self.lags, v["ar_params"]):
            c[lag - 1] = x
        yield sq(v["sigma_ar"][()]), lambda s: [Z0] * s + ssm.impulse(ssm.lagpoly(c), [alg.T(1)], n - s)

    def H(self, v):
        return Z0


class Season(AR):
    def __init__(self, s, innov=True, name="season", pop=True, labels=None):
        self.s, self.innov, self.name, self.pop, self.labels = s, innov, name, pop, labels

    def make(self, st):
        return st.TimeSeasonality(season_length=self.s, innovations=self.innov, name=self.name, pop_state=self.pop,
                                  state_names=self.labels)

    def path(self, v, n, data):
        c = list(v[f"{self.name}_coefs"])
        if not self.pop:
            return [c[t % self.s] for t in range(n)]
        # documented: the current effect is coefs[0], then -sum(coefs), then the coefficients from the last to the first
        cycle = [c[0], -sum(c, Z0), *c[:0:-1]]
        return [cycle[t % self.s] for t in range(n)]

    def shocks(self, v, n, data):
        if self.innov:
            if self.pop:
                resp = [alg.T((1, -1)[t % self.s] if t % self.s < 2 else 0) for t in range(n)]
                if self.s == 1:
                    resp = [alg.T(0)] * n
            else:
                resp = [alg.T(int(t % self.s == 0)) for t in range(n)]
            yield sq(v[f"sigma_{self.name}"][()]), lambda s: [Z0] * s + resp[: n - s]


def rotate(c, s, n, a, b):
    """first coordinate of n steps of x' = c x + s y, y' = -s x + c y"""
    out = []
    for _ in range(n):
        out.append(a)
        a, b = c * a + s * b, c * b - s * a
    return out


class Freq(AR):
    def __init__(self, s, n=None, innov=True, name="freq"):
        self.s, self.n, self.innov, self.name = s, n, innov, name

    def make(self, st):
        return st.FrequencySeasonality(season_length=self.s, n=self.n, innovations=self.innov, name=self.name)

    def rot(self, j, n, a, b):
        lam = alg.T(2 * np.pi * j / self.s)
        return rotate(alg.cos(lam), alg.sin(lam), n, a, b)

    def path(self, v, n, data):
        k = self.n or int(self.s // 2)
        c = list(v[self.name]) + [Z0]
        out = [Z0] * n
        for j in range(k):
            out = [x + y for x, y in zip(out, self.rot(j + 1, n, c[2 * j], c[2 * j + 1]))]
        return out

    def shocks(self, v, n, data):
        if self.innov:
            for j in range(self.n or int(self.s // 2)):
                for a, b in ((1, 0), (0, 1)):
                    yield sq(v[f"sigma_{self.name}"][()]), lambda s, j=j, a=a, b=b: [Z0] * s + self.rot(j + 1, n - s, alg.T(a), alg.T(b))


class Cycle(AR):
    def __init__(self, length=None, dampen=False, innov=True, name="cycle"):
        self.length, self.dampen, self.innov, self.name = length, dampen, innov, name

    def make(self, st):
        return st.CycleComponent(name=self.name, cycle_length=self.length, estimate_cycle_length=self.length is None,
                                 dampen=self.dampen, innovations=self.innov)

    def rot(self, v, n, a, b):
        if self.length is None:
            lam = alg.T(2 * np.pi) / v[f"{self.name}_length"][()]
        else:
            lam = alg.T(2 * np.pi / self.length)
        rho = v[f"{self.name}_dampening_factor"][()] if self.dampen else alg.T(1)
        return rotate(rho * alg.cos(lam), rho * alg.sin(lam), n, a, b)

    def path(self, v, n, data):
        return self.rot(v, n, *v[self.name])

    def shocks(self, v, n, data):
        if self.innov:
            for a, b in ((1, 0), (0, 1)):
                yield sq(v[f"sigma_{self.name}"][()]), lambda s, a=a, b=b: [Z0] * s + self.rot(v, n - s, alg.T(a), alg.T(b))


class Reg(AR):
    def __init__(self, k, innov=False, name="exog"):
        self.k, self.innov, self.name = k, innov, name

    def make(self, st):
        return st.RegressionComponent(k_exog=self.k, innovations=self.innov, name=self.name)

    def path(self, v, n, data):
        X, b = data[f"data_{self.name}"], v[f"beta_{self.name}"]
        return [sum((X[t, i] * b[i] for i in range(self.k)), Z0) for t in range(n)]

    def shocks(self, v, n, data):
        if self.innov:
            X = data[f"data_{self.name}"]
            for i in range(self.k):
                yield sq(v[f"sigma_beta_{self.name}"][i]), lambda s, i=i: [Z0] * s + [X[t, i] for t in range(s, n)]


def structural(S, comps, n, builds=1, assoc="left", reuse=False):
    from pymc_extras.statespace import structural as st

    with S.encoding():
        cs = [c.make(st) for c in comps]
        if reuse:  # components are values: building or adding them must not change them
            for c in cs:
                c.build(verbose=False)
            if len(cs) > 1:
                (cs[-1] + cs[0]).build(verbose=False)
        if assoc == "left":
            tot = cs[0]
            for c in cs[1:]:
                tot = tot + c
        else:
            tot = cs[-1]
            for c in cs[-2::-1]:
                tot = c + tot
        for _ in range(builds):
            mod = tot.build(verbose=False)
        dat = {f"data_{c.name}": np.zeros((n, c.k)) for c in comps if isinstance(c, Reg)}
        params, m, dvars = ssm.build(mod, dat)
    S.concrete("names", len(mod.state_names) == mod.k_states and len(mod.param_names) == len(set(mod.param_names)),
               f"{len(mod.state_names)} state names for {mod.k_states} states; parameters {mod.param_names}")
    if mod.ssm.k_posdef and any(getattr(c, "innov", True) for c in comps if not type(c) is Meas):
        S.concrete("shock-names", len(mod.shock_names) == mod.k_posdef, f"{len(mod.shock_names)} shock names for {mod.k_posdef} shocks")
    sym = ssm.symbols(mod)
    data = {name: alg.array(name, a.shape) for name, a in dat.items()}
    ass = [alg.gt(v[()], 0) for name, v in sym.items() if name.endswith("_length")]

    def resp(s):
        out = []
        X = ssm.at(m["R"], s, 2)
        for t in range(n):
            if t < s:
                out.append(pt.zeros((m["R"].shape[-1],)))
                continue
            out.append((ssm.at(m["Z"], t, 2) @ X)[0])
            X = ssm.at(m["T"], t, 2) @ X
        r = pt.stack(out)
        return r @ m["Q"] @ r.T

    outs = [ssm.free_response(m, n)[:, 0], resp(1), resp(2), m["H"][0, 0], m["P0"]]

    def spec():
        path = [Z0] * n
        cov = {s: ssm.zeros(n, n) for s in (1, 2)}
        H = Z0
        for c in comps:
            path = [a + b for a, b in zip(path, c.path(sym, n, data))]
            H = H + c.H(sym)
            for var, r in c.shocks(sym, n, data):
                for s in (1, 2):
                    w = r(s)
                    for i in range(n):
                        for j in range(n):
                            cov[s][i, j] = cov[s][i, j] + var * w[i] * w[j]
        h = np.empty((), dtype=object)
        h[()] = H
        return [np.array(path, dtype=object), cov[1], cov[2], h, sym["P0"]]

    givens = {params[x]: sym[x] for x in params} | {dvars[x]: data[x] for x in dvars}
    S.graph("", outs, givens, spec, ass, labels=["path", "cov_of_shock_1", "cov_of_shock_2", "measurement_variance", "initial_cov"],
            ranges={a: (1.5, 9.0) for a in ("cycle_length",)})


SINGLE = [
    ("trend1", [Trend(1)], 4), ("trend1-const", [Trend(1, 0)], 4), ("trend2", [Trend(2)], 5), ("trend2-rw-drift", [Trend(2, 1)], 5),
    ("trend2-smooth", [Trend(2, [0, 1])], 5), ("trend3", [Trend(3)], 6), ("trend3-011", [Trend(3, [0, 1, 1])], 6), ("trend3-101", [Trend(3, [1, 0, 1])], 6), ("trend4-0", [Trend(4, 0)], 6),
    ("ar1", [AR(1)], 6), ("ar3", [AR(3)], 7), ("ar-mask", [AR([1, 0, 1])], 7), ("ar-mask2", [AR([0, 1, 0, 1])], 8),
    ("season2", [Season(2)], 6), ("season3", [Season(3, labels=["a", "b", "c"])], 8), ("season4", [Season(4)], 10), ("season5-det", [Season(5, innov=False)], 11), ("season4-nopop", [Season(4, pop=False)], 9),
    ("freq4", [Freq(4)], 6), ("freq5", [Freq(5)], 6), ("freq6-n2", [Freq(6, 2)], 7), ("freq6-n3-det", [Freq(6, 3, innov=False)], 7), ("freq7.5-n1", [Freq(7.5, 1)], 6), ("freq2.5", [Freq(2.5)], 5),
    ("cycle8", [Cycle(8)], 6), ("cycle8-damped", [Cycle(8, True)], 5), ("cycle-est", [Cycle()], 5), ("cycle-est-damped", [Cycle(None, True)], 5), ("cycle6-det", [Cycle(6, innov=False)], 5), ("cycle-est-damped-det", [Cycle(None, True, False)], 5),
    ("reg1", [Reg(1)], 4), ("reg2", [Reg(2)], 4), ("reg2-innov", [Reg(2, True)], 4),
]
SUMS = [
    ("trend+meas", [Trend(2), Meas("obs")], 5, {}), ("trend+season+meas", [Trend(2, 1), Season(3), Meas("obs")], 7, {}),
    ("trend+ar", [Trend(1, 0), AR(2)], 6, {}), ("season+trend-reuse", [Season(3), Trend(2)], 7, {"reuse": True}),
    ("det-trend+det-cycle-reuse", [Trend(2, 0), Cycle(5, innov=False)], 5, {"reuse": True}),
    ("trend+freq+cycle", [Trend(1), Freq(4), Cycle(None, True)], 5, {}), ("reg+trend", [Reg(2), Trend(2)], 4, {}), ("trend+reg", [Trend(2), Reg(2)], 4, {}),
    ("reg-innov+ar+meas-right", [Reg(2, True), AR(1), Meas("obs")], 4, {"assoc": "right"}), ("trend+reg+season-reuse", [Trend(1), Reg(1), Season(3, innov=False)], 5, {"reuse": True}),
    ("season+season", [Season(2, name="a"), Season(3, name="b")], 7, {}), ("meas+meas", [Trend(1, 0), Meas("e1"), Meas("e2")], 4, {}),
    ("cycle+cycle-right", [Cycle(4, name="cycle"), Cycle(None, True, name="other"), Trend(1)], 4, {"assoc": "right"}),
    ("build-twice", [Trend(2), AR(1)], 5, {"builds": 2}), ("det+stoch", [Trend(2, 0), Season(3)], 6, {}), ("single-build-twice", [Season(3)], 6, {"builds": 2}),
]
DEEP = [("trend3+season4+ar2+meas", [Trend(3), Season(4), AR(2), Meas("obs")], 9, {}), ("freq12-n6", [Freq(12, 6)], 8, {}), ("season7", [Season(7)], 16, {}), ("season12-det", [Season(12, innov=False)], 26, {}),
        ("all", [Trend(2), Season(3), Freq(4, 1), AR(1), Reg(2, True), Cycle(None, True), Meas("obs")], 5, {}), ("ar4", [AR(4)], 10, {}), ("trend5", [Trend(5)], 8, {}), ("reg3", [Reg(3, True), Trend(3)], 6, {})]


def cases(tier):
    out = []
    for name, comps, n, kw in [(a, b, c, {}) for a, b, c in SINGLE] + SUMS + (DEEP if tier == "thorough" else []):
        def run(S, comps=comps, n=n, kw=kw, name=name):
            S.bound(f"{name}: {n} steps, all parameters, P0 and exogenous data symbolic")
            structural(S, comps, n, **kw)
        out.append((name, run))
    return out
