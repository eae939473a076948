TITLE = "Model builders fit, predict and persist the model they describe"
ASSUMPTIONS = ["real arithmetic; pm.sample is a stand-in that reports an arbitrary posterior with the deterministics and data groups PyMC records",
               "PyMC's forward sampling runs for real; every draw it makes is its location plus its scale times an arbitrary number",
               "files are in memory during the symbolic run and on disk in a scratch directory in replays"]
import contextlib
import copy
import json
import os
import tempfile
import xarray.core.nanops as nanops
from types import SimpleNamespace

import arviz as az
import numpy as np
import pandas as pd
import pymc as pm
import pytensor
import sklearn.utils.validation as skv
from pymc.pytensorf import convert_data, convert_observed_data
from pytensor.tensor.type import TensorType

from checks.core import quiet
from checks.fits import SymFunction
from checks.jaxed import Fill, compare, letters, replaced, validate
from vlib import alg, ptsym, smt
from vlib.alg import T
from vlib.harness import RealCodeError

plain_mean = nanops.nanmean
NAMES = {"intercept": "intercept", "slope": "slope", "beta": "slope", "σ_model_fmc": "noise", "sigma": "noise"}


def linear():
    from pymc_extras.linearmodel import LinearModel

    return LinearModel, {"intercept": {"loc": 0.5, "scale": 2.0}, "slope": {"loc": -1.0, "scale": 4.0}, "obs_error": 1.5}, 1, "slope", "σ_model_fmc"


def custom():
    """a user's builder: two predictors, arrays and dims in the configuration"""
    from pymc_extras.model_builder import ModelBuilder

    class Regression(ModelBuilder):
        _model_type = "Regression"
        version = "0.3"

        @staticmethod
        def get_default_model_config():
            return {"intercept": {"loc": 0.5, "scale": 2.0}, "beta": {"loc": np.array([1.0, -0.5]), "scale": np.array([2.0, 4.0]), "dims": ("column",)}, "obs_error": 1.5}

        @staticmethod
        def get_default_sampler_config():
            return {"draws": 2, "tune": 7, "chains": 2, "target_accept": 0.75}

        @property
        def output_var(self):
            return "target"

        @property
        def _serializable_model_config(self):
            c = copy.deepcopy(self.model_config)
            for k in ("loc", "scale"):
                c["beta"][k] = c["beta"][k].tolist()
            return c

        def _generate_and_preprocess_model_data(self, X, y):
            self.X, self.y = X, y

        def _data_setter(self, X, y=None):
            with self.model:
                pm.set_data({"x": np.asarray(X)})
                if y is not None:
                    pm.set_data({"y": np.asarray(y)})

        def build_model(self, X, y, **kwargs):
            c = self.model_config
            with pm.Model(coords={"column": ["first", "second"]}) as self.model:
                x = pm.Data("x", np.zeros((1, 2)), dims=("row", "column"))
                t = pm.Data("y", np.zeros(1), dims="row")
                a = pm.Normal("intercept", c["intercept"]["loc"], sigma=c["intercept"]["scale"])
                b = pm.Normal("beta", c["beta"]["loc"], sigma=c["beta"]["scale"], dims=c["beta"]["dims"])
                s = pm.HalfNormal("sigma", c["obs_error"])
                mu = pm.Deterministic("mu", a + (x * b).sum(-1), dims="row")
                pm.Normal("target", mu, sigma=s, shape=mu.shape, observed=t, dims="row")
            self._data_setter(X, y)

    return Regression, Regression.get_default_model_config(), 2, "beta", "sigma"


BUILDERS = {"linear": linear, "custom": custom}
SAMPLER = {"draws": 2, "tune": 7, "chains": 2, "target_accept": 0.75}


class World:
    """what stands in for samplers, compiled functions and files; `numbers` None for a symbolic run"""

    def __init__(self, numbers, folder):
        self.numbers, self.folder, self.calls, self.fits, self.files = numbers, folder, 0, [], {}

    def letters(self, prefix, shape):
        return letters(prefix, shape, self.numbers)

    def positive(self, name):
        return alg.positive_var(name) if self.numbers is None else abs(self.numbers.get(name, 0.75))

    def draw(self, ev, node, ins):
        kind = type(node.op).__name__
        assert kind in ("NormalRV", "HalfNormalRV"), kind
        rng, size, mu, sd = ins
        self.drew = True
        size = None if size is None or np.ndim(size) == 0 else tuple(int(s) for s in np.asarray(size))
        shape = np.broadcast_shapes(np.shape(mu), np.shape(sd)) if size is None else size
        if len(np.broadcast_shapes(shape, np.shape(mu), np.shape(sd))) != len(shape) or np.broadcast_shapes(shape, np.shape(mu), np.shape(sd)) != shape:
            raise ValueError(f"shape mismatch: draws of shape {shape} from parameters of shapes {np.shape(mu)}, {np.shape(sd)}")
        mu, sd = (np.broadcast_to(np.asarray(a, dtype=object), shape) for a in (mu, sd))
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = T(mu[i]) + T(sd[i]) * self.noise(kind, self.calls, node.outputs[1].name, i)
        return [rng, out]

    def noise(self, kind, call, name, i):
        z = f"z{call}_{NAMES.get(name, 'output')}{'_'.join(map(str, i))}"
        return self.positive(z) if kind == "HalfNormalRV" else np.asarray(self.letters(z, ()), dtype=object)[()]

    def function(self, inputs, outputs):
        f = SymFunction(None, inputs, outputs)

        def run(*args, **kw):
            given = list(args) + [kw[i.name] for i in f.inputs[len(args):] if i.name in kw]
            self.drew = False
            out = ptsym.evaluate(f.outputs, dict(zip(f.inputs, (np.asarray(g, dtype=object) for g in given))), rv_handler=self.draw)
            self.calls += self.drew
            out = [plain(o) for o in out]
            if self.numbers is not None:
                out = [np.array([float(T(x).const()) for x in o.ravel()]).reshape(o.shape) if o.dtype == object else o for o in out]
            return out[0] if f.single else out

        run.maker = SimpleNamespace(fgraph=SimpleNamespace(inputs=f.inputs))
        return run

    def sample(self, *args, **kw):
        model = pm.modelcontext(kw.get("model"))
        C, D = kw["chains"], kw["draws"]
        free = [v for v in model.free_RVs]
        post = {}
        n = len(self.fits)
        for v in free:
            post[v.name] = self.letters(f"{NAMES[v.name]}{n}_", (C, D, *(len(model.coords[d]) for d in model.named_vars_to_dims.get(v.name, ()))))
        for det in model.deterministics:
            rows = [[ptsym.evaluate([det], {v: np.asarray(post[v.name][c, d], dtype=object) for v in free})[0] for d in range(D)] for c in range(C)]
            a = np.array(rows, dtype=object)
            post[det.name] = a if self.numbers is None else a.astype(object).reshape(a.shape)
            if self.numbers is not None:
                post[det.name] = np.array([float(T(x).const()) for x in a.ravel()]).reshape(a.shape)
        value = {v.name: np.asarray(self.letters(f"v{n}_{NAMES[v.name]}", np.shape(post[v.name])[2:]), dtype=object) for v in free}
        values = {model.rvs_to_values[v]: value[v.name] for v in free}
        logp = ptsym.evaluate([model.logp(jacobian=False)], values)[0]
        self.fits.append({"kw": kw, "post": post, "logp": logp, "value": value})
        data = {d.name: np.array(d.get_value(), copy=True) for d in model.data_vars}
        observed = {r.name: np.array(o.get_value(), copy=True) for r, o in ((r, model.rvs_to_values[r]) for r in model.observed_RVs)}
        return az.from_dict(posterior={k: np.asarray(v) for k, v in post.items()}, observed_data=observed, constant_data=data,
                            dims={k: list(v) for k, v in model.named_vars_to_dims.items()}, coords={k: list(v) for k, v in model.coords.items() if v is not None})


def plain(a):
    return np.asarray(a)


def terms(x):
    return isinstance(x, np.ndarray | pd.Series | pd.DataFrame) and np.asarray(x).dtype == object


def together(a, b):
    """whether two arrays of terms are equal, as one decision"""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and bool(alg.ball([alg.eq(T(x), T(y)) for x, y in zip(a.ravel(), b.ravel())]))


@contextlib.contextmanager
def world(numbers):
    with contextlib.ExitStack() as st:
        folder = st.enter_context(tempfile.TemporaryDirectory())
        w = World(numbers, folder)
        orig = pytensor.function
        prior_draws = pm.sample_prior_predictive
        few = lambda *a, **k: prior_draws(*a, **(k if a or {"draws", "samples"} & set(k) else k | {"draws": 2}))
        pairs = [(prior_draws, few), (pm.sample, lambda *a, **k: w.sample(*a, **k)), (orig, lambda inputs, outputs=None, *a, **k: w.function(inputs, outputs))]
        if numbers is None:
            keep = lambda f: lambda x, *a, **k: np.asarray(x, dtype=object) if terms(x) else f(x, *a, **k)
            pairs += [(f, keep(f)) for f in (convert_data, convert_observed_data)]
            pairs += [(skv.check_array, keep(skv.check_array))]
            pairs += [(nanops.nanmean, lambda a, axis=None, dtype=None: np.mean(a, axis) if np.asarray(a).dtype == object else plain_mean(a, axis, dtype))]
            equal = np.array_equal
            np.array_equal = lambda a, b, *r, **k: together(a, b) if object in (np.asarray(a).dtype, np.asarray(b).dtype) else equal(a, b, *r, **k)
            st.callback(setattr, np, "array_equal", equal)
            old = TensorType.filter
            TensorType.filter = lambda self, data, *a, **k: data if isinstance(data, np.ndarray) and data.dtype == object else old(self, data, *a, **k)
            st.callback(setattr, TensorType, "filter", old)
            save, load = az.InferenceData.to_netcdf, az.from_netcdf
            az.InferenceData.to_netcdf = lambda self, name, *a, **k: w.files.__setitem__(str(name), shelve(self))
            st.callback(setattr, az.InferenceData, "to_netcdf", save)
            pairs += [(load, lambda name, *a, **k: shelve(w.files[str(name)]))]
        st.enter_context(replaced(pairs))
        yield w


def shelve(idata):
    """what a file keeps: values, coordinates, attributes as text"""
    out = az.InferenceData(**{g: idata[g].copy() for g in idata.groups()})
    out.attrs.update({k: str(v) for k, v in idata.attrs.items()})
    return out


class Spec:
    """the regression, written out"""

    def __init__(self, config, k, slope):
        self.c, self.k, self.slope = config, k, slope

    def mean(self, a, b, x):
        b = np.atleast_1d(np.asarray(b, dtype=object))
        return T(a) + sum((T(b[j]) * T(x[j]) for j in range(self.k)), T(0))


def inputs(w, prefix, n, k, form, index):
    a = np.asarray(w.letters(prefix, (n, k)))
    if form == "array":
        return a, a
    return pd.DataFrame(a, columns=[f"col{j}" for j in range(k)], index=index), a


def play(S, builder, steps, numbers):
    """-> results, their specification, the builder's facts"""
    cls, config, k, slope, noise = BUILDERS[builder]()
    got, want, facts = {}, {}, []
    with quiet(), world(numbers) as w:
        b = cls(model_config=copy.deepcopy(config), sampler_config=dict(SAMPLER))
        spec = Spec(config, k, slope)
        post = None
        arr = lambda x: np.asarray(x, dtype=object)
        for j, (what, n, o) in enumerate(steps):
            start = w.calls
            lab = f"{j}:{what}"
            if what == "fit":
                index = o.get("index") and list(o["index"])
                X, x = inputs(w, f"x{j}_", n, k, "frame", index)
                y = w.letters(f"y{j}_", (n,))
                form = o.get("y", "array")
                given = {"array": lambda: np.asarray(y), "series": lambda: pd.Series(np.asarray(y), index=index), "none": lambda: None}[form]()
                if form == "none":
                    y = np.zeros(n)
                nf = len(w.fits)
                with S.encoding():
                    idata = b.fit(X, given, progressbar=False, random_seed=3, **o.get("kw", {}))
                f = w.fits[-1]
                post = f["post"]
                need = SAMPLER | {"progressbar": False, "random_seed": 3} | o.get("kw", {})
                facts.append((f"{lab}/sampler", len(w.fits) == nf + 1 and all(f["kw"].get(a) == v for a, v in need.items()), f"samples with {f['kw']}, required {need}"))
                facts.append((f"{lab}/idata", idata is b.idata and {"posterior", "prior", "posterior_predictive", "fit_data"} <= set(idata.groups()), f"groups {idata.groups()}"))
                got[f"{lab}/logp"], want[f"{lab}/logp"] = arr(f["logp"]), arr(logp(config, f["value"], x, y, slope, noise, k))
                fd = idata.fit_data.to_dataframe()
                out = b.output_var
                if facts_shape(facts, f"{lab}/fit_data", fd.shape, (n, k + 1)):
                    got[f"{lab}/fit_data"] = np.column_stack([arr(fd.drop(columns=[out])), arr(fd[out])])
                    want[f"{lab}/fit_data"] = np.column_stack([arr(x), arr(y)])
                total = post[slope].shape[0] * post[slope].shape[1]  # the calls before drew from the prior
                got[f"{lab}/predictive"] = arr(idata.posterior_predictive[out].values)
                want[f"{lab}/predictive"] = predictive(w, spec, post, x, w.calls - total, slope, noise, out) if numbers is None else None
            elif what in ("predict", "predict_posterior", "predict_proba"):
                X, x = inputs(w, f"x{j}_", n, k, o.get("form", "frame"), o.get("index"))
                kw = {a: o[a] for a in ("combined", "extend_idata") if a in o}
                with S.encoding():
                    r = getattr(b, what)(X, progressbar=False, **kw)
                p = predictive(w, spec, post, x, start, slope, noise, b.output_var) if numbers is None else None
                if what == "predict":
                    got[lab] = arr(r)
                    want[lab] = p.sum((0, 1)) / (p.shape[0] * p.shape[1]) if p is not None else None
                else:
                    combined = o.get("combined", what == "predict_posterior")
                    dims = [d for d in r.dims if d not in ("chain", "draw", "sample")]
                    facts.append((f"{lab}/dims", set(r.dims) == {*dims, *(["sample"] if combined else ["chain", "draw"])} and len(dims) == 1, f"dims {r.dims}"))
                    if combined:
                        r = r.unstack("sample")
                    got[lab], want[lab] = arr(r.transpose("chain", "draw", *dims).values), p
                if o.get("extend_idata", True):
                    got[f"{lab}/idata"], want[f"{lab}/idata"] = arr(b.idata.posterior_predictive[b.output_var].values), p
            elif what == "sample_prior_predictive":
                X, x = inputs(w, f"x{j}_", n, k, o.get("form", "frame"), o.get("index"))
                kw = {a: o[a] for a in ("samples", "combined", "extend_idata") if a in o}
                with S.encoding():
                    r = b.sample_prior_predictive(X, **kw)[b.output_var]
                m = o.get("samples", SAMPLER["draws"])
                combined = o.get("combined", True)
                dims = [d for d in r.dims if d not in ("chain", "draw", "sample")]
                facts.append((f"{lab}/dims", set(r.dims) == {*dims, *(["sample"] if combined else ["chain", "draw"])} and len(dims) == 1, f"dims {r.dims}"))
                r = r.unstack("sample") if combined else r
                got[lab] = arr(r.transpose("chain", "draw", *dims).values)
                want[lab] = prior(w, config, spec, x, start, m, slope, noise, b.output_var) if numbers is None else None
                if o.get("extend_idata"):
                    got[f"{lab}/idata"], want[f"{lab}/idata"] = arr(b.idata.prior_predictive[b.output_var].values), want[lab]
            elif what == "reload":
                name = os.path.join(w.folder, f"model{j}.nc")
                with S.encoding():
                    b.save(name)
                    fresh = cls.load(name)
                facts.append((f"{lab}/id", fresh.id == b.id and fresh is not b, f"identifier {fresh.id}, saved {b.id}"))
                facts.append((f"{lab}/config", same(fresh.model_config, b.model_config) and same(fresh.sampler_config, b.sampler_config), f"configuration {fresh.model_config}, saved {b.model_config}"))
                if numbers is None:
                    other = copy.deepcopy(config)
                    other["obs_error"] = 2.5
                    for why, change in {"identifier": {"id": "0" * 16}, "configuration": {"model_config": json.dumps(jsonable(other))}}.items():
                        f = shelve(w.files[name])
                        f.attrs.update(change)
                        w.files["other"] = f
                        try:
                            cls.load("other")
                            ok = False
                        except ValueError:
                            ok = True
                        facts.append((f"{lab}/other-{why}", ok, f"a file of another {why} is loaded"))
                b = fresh
                f = w.fits[-1]
                got[f"{lab}/logp"] = arr(ptsym.evaluate([b.model.logp(jacobian=False)], {b.model.rvs_to_values[v]: f["value"][v.name] for v in b.model.free_RVs})[0])
                want[f"{lab}/logp"] = arr(f["logp"])
                for v in post:
                    got[f"{lab}/posterior/{v}"], want[f"{lab}/posterior/{v}"] = arr(b.idata.posterior[v].values), arr(post[v])
            else:
                raise AssertionError(what)
    if numbers is not None:
        got = {a: np.array([float(T(x).const()) for x in arr(v).ravel()]).reshape(np.shape(v)) for a, v in got.items()}
    return got, want, facts


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and np.array_equal(a, b)


def jsonable(x):
    return {k: jsonable(v) for k, v in x.items()} if isinstance(x, dict) else x.tolist() if isinstance(x, np.ndarray) else list(x) if isinstance(x, tuple) else x


def facts_shape(facts, lab, shape, required):
    facts.append((f"{lab}/shape", shape == required, f"saved data of shape {shape}, required {required}"))
    return shape == required


def logp(c, value, x, y, slope, noise, k):
    a, b, v = T(value["intercept"][()]), np.atleast_1d(value[slope]), value[noise][()]
    s = alg.exp(T(v))
    half = alg.log(alg.sqrt(T(2 * np.pi)))
    N = lambda u, m, sd: -(((T(u) - T(m)) / T(sd)) ** 2) / 2 - alg.log(T(sd)) - half
    out = N(a, c["intercept"]["loc"], c["intercept"]["scale"]) + N(s, 0, c["obs_error"]) + alg.log(T(2))
    for j in range(k):
        out = out + N(b[j], np.atleast_1d(c[slope]["loc"])[j], np.atleast_1d(c[slope]["scale"])[j])
    for r in range(len(y)):
        out = out + N(y[r], a + sum((T(b[j]) * T(x[r, j]) for j in range(k)), T(0)), s)
    return out


def predictive(w, spec, post, x, start, slope, noise, out):
    C, D = post[slope].shape[:2]
    r = np.empty((C, D, len(x)), dtype=object)
    for c in range(C):
        for d in range(D):
            for i in range(len(x)):
                r[c, d, i] = spec.mean(post["intercept"][c, d], post[slope][c, d], x[i]) + T(post[noise][c, d]) * w.noise("NormalRV", start + c * D + d, out, (i,))
    return r


def prior(w, c, spec, x, start, m, slope, noise, out):
    r = np.empty((1, m, len(x)), dtype=object)
    for d in range(m):
        z = lambda name, i=(), kind="NormalRV": w.noise(kind, start + d, name, i)
        a = T(c["intercept"]["loc"]) + T(c["intercept"]["scale"]) * z("intercept")
        loc, scale = np.atleast_1d(c[slope]["loc"]), np.atleast_1d(c[slope]["scale"])
        vec = np.ndim(c[slope]["loc"]) > 0
        b = [T(loc[j]) + T(scale[j]) * z(slope, (j,) if vec else ()) for j in range(spec.k)]
        s = T(c["obs_error"]) * z(noise, (), "HalfNormalRV")
        for i in range(len(x)):
            r[0, d, i] = spec.mean(a, b, x[i]) + s * z(out, (i,))
    return r


def run(S, builder, steps):
    S.bound("; ".join(f"{w} with {n} rows" if n else w for w, n, _ in steps) + "; 2 chains of 2 draws (arbitrary numbers)")
    p = 0
    for path, (kind, res) in smt.Explorer([], log_positive=True).run(lambda: play(S, builder, steps, None)):
        p += 1
        tag = f"@p{p}" if p > 1 else ""
        if kind == "raise":
            if isinstance(res, RealCodeError):
                confirm(S, f"runs{tag}", res, path, lambda a: play(S, builder, steps, a))
                continue
            raise res
        got, want, facts = res
        for lab, ok, detail in facts:
            S.concrete(lab + tag, ok, detail)
        again = lambda a: play(S, builder, steps, a)[0]
        compare(S, got, want, path, tag, again)
        if p == 1 and not S.violations:
            validate(S, got, again)


def confirm(S, label, error, path, rerun):
    """the code raised on terms: a violation if it also raises on numbers that follow the same path"""
    def rep(assign):
        try:
            rerun(Fill(assign))
        except RealCodeError as e:
            return True, str(e)
        return False, f"on terms: {error}"

    S.prove(label, False, path, rep)


def P(n, **o):
    return ("predict", n, o)


def cases(tier):
    fit = lambda n=2, **o: ("fit", n, o)
    again = ("reload", 0, {})
    progs = {
        "predict": [fit(), P(1), P(3, form="array")],
        "predict-again": [fit(), P(2), P(2), P(2, extend_idata=False)],
        "predict-longer": [fit(), P(3), ("predict_posterior", 3, {}), ("predict_posterior", 1, {"combined": False})],
        "proba": [fit(1), ("predict_proba", 2, {}), ("predict_proba", 2, {"combined": True, "extend_idata": False}), P(1)],
        "prior-first": [("sample_prior_predictive", 2, {"samples": 3, "extend_idata": True}), ("sample_prior_predictive", 1, {}), ("sample_prior_predictive", 3, {"combined": False, "extend_idata": True}), fit()],
        "prior-between": [fit(), ("sample_prior_predictive", 2, {"extend_idata": True}), P(2), ("sample_prior_predictive", 3, {"extend_idata": False}), P(2)],
        "index": [fit(index=[10, 7], y="array"), again, P(2)],
        "series": [fit(index=[3, 4], y="series", kw={"draws": 1, "chains": 3}), again],
        "no-target": [fit(y="none"), P(2), again],
        "reload": [fit(), P(2), again, P(2), P(1), again],
        "refit": [fit(), P(2), fit(3), P(2), P(3)],
        "one-row": [fit(1, index=["a"]), again, P(1, index=["b"])],
    }
    return [(f"{b}/{name}", lambda S, b=b, s=s: run(S, b, s)) for b in BUILDERS for name, s in progs.items()]
