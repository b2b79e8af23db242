"""C15: specialised steps are used exactly for the models they are valid for.

A variable is "specialised" when the stage it belongs to has no tuning
parameters.  Two generated families:

`forms`  the documented model forms in every equivalent way of supplying their
         inputs; each of their variables must be specialised
`near`   models that differ from a documented form in one respect that makes the
         closed-form step wrong; a variable concerned must be left to NUTS, or
         its step must still be right (Geweke's joint-distribution test of the
         sampler; dispersion parameters and beta-negative-binomial models, whose
         steps have known findings, must be left to NUTS)
"""
import numpy as np
from hypothesis import strategies as st

import aesara
import aesara.tensor as at
import aemcmc
from aesara.tensor.random import RandomStream

from checks.c06 import functional_means, pairs, rank_in
from vf import nutsub, stats
from vf.build import Inputs, seeds
from vf.core import Skip, Sub, Violation, sut
from vf.run_sampler import Built

ASSUMPTIONS = [
    "documented forms are written as in the documentation: sigmoid of minus the linear predictor, `-(X @ b)` or `-at.dot(X, b)`",
    "near-misses of a negative-binomial dispersion or of a beta-negative-binomial model must go to NUTS; for others a specialised step is accepted when the sampler is right",
]


def specialised(sampler):
    general = {v for op in sampler.parameters for v in sampler.stages[op]}
    return [v for v in sampler.sample_steps if v not in general]


# --------------------------------------------------------------- forms


class Form:
    """Builds a documented model form; `rvs` are the variables to be specialised."""

    def __init__(self, case):
        self.c = case
        self.r = RandomStream(case["seed"])
        self.rvs, self.obs = {}, []
        self.n_sym = 0
        self.k = 0
        for _ in range(case["copies"]):
            getattr(self, case["form"])()
            self.k += 1

    def latent(self, name, dist, *args, **kw):
        if self.c["named"]:
            kw["name"] = name + str(self.k)
        v = getattr(self.r, dist)(*args, **kw)
        self.rvs[name + str(self.k)] = v
        return v

    def give(self, key, vec=None, dtype=None):
        """A parameter: scalar, or a vector of length `vec` if the case says so."""
        how = self.c[key]
        self.n_sym += 1
        nm = f"{key}{self.n_sym}"
        vector = how.startswith("v") and vec is not None
        how = how[1:] if how.startswith("v") else how
        base = 2 if dtype == "int" else 1.5
        if how == "python":
            return [base] * vec if vector and isinstance(vec, int) else base
        if how == "numpy":
            return np.full(vec if vector and isinstance(vec, int) else (), base)
        if how == "const":
            return at.as_tensor(np.full(vec, base) if vector and isinstance(vec, int) else base)
        if how == "shared":
            return aesara.shared(np.full(vec, base) if vector and isinstance(vec, int) else np.array(base), name=nm)
        t = "int64" if how in ("int_input",) or (dtype == "int") else ("float32" if how == "f32_input" else "float64")
        if how == "shared_scalar":
            return aesara.shared(np.array(base), name=nm)
        x = at.tensor(t, shape=(vec if isinstance(vec, int) and how == "static_input" else None,) if vector else (), name=nm)
        if how == "expr":
            return at.exp(x) + 1
        if how == "rv":
            y = self.r.lognormal(0.0, 0.3, size=(vec if isinstance(vec, int) else 3,) if vector else None, name="hyper" + nm)
            return y
        return x

    def gp(self):
        lam = self.latent("lam", "gamma", self.give("p0", 3), self.give("p1", 3), size=self.size(self.c["p0"][0] == "v" or self.c["p1"][0] == "v"))
        self.obs.append(self.r.poisson(lam, size=self.lead(lam)))

    def bb(self, dist="binomial"):
        p = self.latent("p", "beta", self.give("p0", 3), self.give("p1", 3), size=self.size(self.c["p0"][0] == "v" or self.c["p1"][0] == "v"))
        n = self.give("p2", 3 if p.ndim and self.c["size"] in ("none", "empty", "vec", "list", "mat") else None, "int" if dist == "binomial" else None)
        self.obs.append(getattr(self.r, dist)(n, p, size=self.lead(p)))

    def bnb(self):
        self.bb("nbinom")

    def size(self, vector):
        k = self.c["size"]
        if vector:
            return {"none": None, "lead": (2, 3), "sym": (at.iscalar("m"), 3)}.get(k)
        return {"none": None, "empty": (), "vec": 3, "list": [3], "mat": (2, 3), "sym": at.iscalar("m"), "symtuple": (at.lscalar("m"), 2), "lead": (2,)}[k]

    def lead(self, v):
        k = self.c["lead"]
        if k == "none":
            return None
        if k == "new":
            return (4,) + tuple(v.shape[i] for i in range(v.ndim))
        if k == "new2":
            return (2, 1) + tuple(v.shape[i] for i in range(v.ndim))
        return tuple(v.shape[i] for i in range(v.ndim)) or None

    def design(self):
        X = np.random.default_rng(self.c["seed"]).normal(size=(5, 3))
        how = self.c["X"]
        nm = f"X{self.k}"
        return {
            "const": lambda: at.as_tensor(X),
            "numpy": lambda: at.as_tensor_variable(X),
            "shared": lambda: aesara.shared(X, name=nm),
            "input": lambda: at.matrix(nm),
            "static": lambda: at.tensor("float64", shape=(5, 3), name=nm),
            "expr": lambda: at.concatenate([at.ones((5, 1)), at.matrix(nm)], axis=1),
            "int": lambda: at.lmatrix(nm),
            "scaled": lambda: at.matrix(nm) / at.matrix(nm + "s").sum(0),
            "sliced": lambda: at.matrix(nm)[:, :3],
            "transposed": lambda: at.matrix(nm).T,
            "col": lambda: at.tensor("float64", shape=(None, 1), name=nm),
            "row": lambda: at.tensor("float64", shape=(1, None), name=nm),
        }[how]()

    def coefficients(self, X):
        c = self.c
        p = 1 if c["X"] == "col" else 3
        mean = {
            "0": lambda: 0,
            "0.0": lambda: 0.0,
            "-0.0": lambda: -0.0,
            "np0": lambda: np.float64(0),
            "at0": lambda: at.as_tensor(0.0),
            "zeros": lambda: np.zeros(p),
            "f32zeros": lambda: np.zeros(p, "float32"),
            "list": lambda: [0.0] * p,
            "zeros1": lambda: np.zeros(1),
            "atzeros": lambda: at.zeros(p),
            "symzeros": lambda: at.zeros(X.shape[1]),
            "alloc": lambda: at.alloc(0.0, X.shape[1]),
        }[c["mean"]]()
        size = {
            "int": lambda: p,
            "tuple": lambda: (p,),
            "list": lambda: [p],
            "sym": lambda: X.shape[1],
            "symtuple": lambda: (X.shape[1],),
            "symslice": lambda: X.shape[1:],
            "input": lambda: at.iscalar("p"),
        }["int" if c["X"] == "col" and c["bsize"] == "input" else c["bsize"]]()
        if c["scale"] == "hs":
            one = {"1": 1, "1.0": 1.0, "at1": at.as_tensor(1.0)}[c["one"]]
            zero = {"1": 0, "1.0": 0.0, "at1": at.as_tensor(0.0)}[c["one"]]
            tau = self.latent("tau", "halfcauchy", zero, one, size=() if c["flip"] else None)
            if c["hs_arr"] == "ones":
                lam = self.latent("lambda", "halfcauchy", np.zeros(p), np.ones(p))
            elif c["hs_arr"] == "atones":
                lam = self.latent("lambda", "halfcauchy", at.zeros(X.shape[1]), at.ones(X.shape[1]))
            elif c["hs_arr"] == "mixed":
                lam = self.latent("lambda", "halfcauchy", zero, at.ones(p))
            else:
                lam = self.latent("lambda", "halfcauchy", zero, one, size=size)
            sd = tau * lam if c["flip"] else lam * tau
            size = size if c["keep_size"] else None
        else:
            sd = self.give("p0", p if c["X"] != "row" else 3)
            if (getattr(sd, "ndim", np.ndim(sd)) == 1 or np.ndim(mean if not isinstance(mean, at.TensorVariable) else 0) == 1 or c["mean"] in ("atzeros", "symzeros", "alloc")) and not c["keep_size"] and c["mean"] != "zeros1":
                size = None
        return self.latent("beta", "normal", mean, sd, size=size)

    def predictor(self):
        X = self.design()
        b = self.coefficients(X)
        eta = {"matmul": lambda: X @ b, "dot": lambda: at.dot(X, b), "method": lambda: X.dot(b)}[self.c["dot"]]()
        m = {"-": lambda: -eta, "neg": lambda: at.neg(eta), "sub": lambda: -1 * eta if False else -eta}[self.c["neg"]]()
        return X, {"sigmoid": at.sigmoid, "expit": at.expit}[self.c["link"]](m)

    def osize(self, X):
        return {"none": None, "new": X.shape[0], "new2": (X.shape[0],), "same": None}[self.c["lead"]]

    def bern(self):
        X, p = self.predictor()
        self.obs.append(self.r.bernoulli(p, size=self.osize(X)))

    def nb(self):
        c = self.c
        if c["h"] == "gamma":
            h = self.latent("h", "gamma", self.give("p1"), self.give("p2"), size=() if c["size"] == "empty" else None)
        elif c["h"] == "lognormal":
            h = self.r.lognormal(0.0, 0.4, name=f"hyperh{self.k}")
        elif c["h"] == "vector":
            h = at.vector(f"h{self.k}")
        else:
            h = self.give("p1")
        X, p = self.predictor()
        self.obs.append(self.r.nbinom(h, p, size=self.osize(X)))

    def hs_obs(self):
        X = self.design()
        b = self.coefficients(X)
        del self.rvs[f"beta{self.k}"]
        self.obs.append(b)


@st.composite
def form_cases(draw):
    s = st.sampled_from
    form = draw(s(["bern", "nb", "gp", "bb", "bnb", "hs_obs"]))
    hows = ["python", "numpy", "const", "shared", "input", "int_input", "f32_input", "expr", "rv", "vnumpy", "vconst", "vshared", "vinput", "vexpr", "vrv", "vstatic_input"]
    return dict(
        form=form,
        copies=draw(s([1, 1, 1, 2])),
        named=draw(s([True, True, False])),
        p0=draw(s(hows)),
        p1=draw(s(hows)),
        p2=draw(s(["python", "numpy", "const", "shared", "input", "expr", "vnumpy", "vinput", "vshared"])),
        size=draw(s(["none", "empty", "vec", "list", "mat", "sym", "symtuple", "lead"])),
        lead=draw(s(["none", "new", "new2", "same"])),
        X=draw(s(["input", "const", "numpy", "shared", "static", "expr", "int", "scaled", "sliced", "transposed", "col", "row"])),
        mean=draw(s(["0", "0.0", "-0.0", "np0", "at0", "zeros", "f32zeros", "list", "zeros1", "atzeros", "symzeros", "alloc"])),
        bsize=draw(s(["int", "tuple", "list", "sym", "symtuple", "symslice", "input"])),
        scale="hs" if form == "hs_obs" else draw(s(["par", "par", "hs"])),
        one=draw(s(["1", "1.0", "at1"])),
        hs_arr=draw(s(["size", "size", "ones", "atones", "mixed"])),
        flip=draw(st.booleans()),
        keep_size=draw(st.booleans()),
        dot=draw(s(["matmul", "dot", "method"])),
        neg=draw(s(["-", "neg"])),
        link=draw(s(["sigmoid", "expit"])),
        h=draw(s(["gamma", "gamma", "gamma", "par", "vector", "lognormal"])),
        rev=draw(st.booleans()),
        seed=draw(seeds),
    )


def form_check(case, ctx):
    try:
        f = Form(case)
    except Exception as e:  # noqa: BLE001
        # Aesara rejects some combinations of sizes and parameters
        if "aemcmc" in repr(e.__traceback__):
            raise
        raise Skip from e
    obs = f.obs[::-1] if case["rev"] else f.obs
    with sut("construct the sampler"), nutsub.kernel("mh"):
        sampler, init = aemcmc.construct_sampler({y: y.clone() for y in obs}, f.r)
    got = specialised(sampler)
    missed = [k for k, v in f.rvs.items() if v not in got]
    if missed:
        raise Violation(f"a documented {case['form']} model form didn't get specialised steps for {missed}")
    ctx.counters["specialised variables"] += len(f.rvs)


# ---------------------------------------------------------- near-misses


class Near:
    """A near-miss.  `bad`: the variables whose closed form would be wrong."""

    def __init__(self, case, srng):
        self.r = srng
        self.c = case
        self.ins = Inputs()
        self.latents, self.observed, self.support = {}, {}, {}
        self.counts, self.gamma_h = [], []
        self.bad, self.strict = [], []
        family, kind = case["family"], case["kind"]
        self.X = np.round(np.random.default_rng(case["xseed"]).uniform(-1.5, 1.5, size=(case["n"], case["p"])), 2)
        getattr(self, family)(kind)

    def lat(self, name, dist, *args, support="positive", **kw):
        v = getattr(self.r, dist)(*args, name=name, **kw)
        self.latents[name] = v
        self.support[name] = support
        return v

    def obs(self, name, dist, *args, counts=False, **kw):
        v = getattr(self.r, dist)(*args, name=name, **kw)
        self.observed[name] = v
        if counts:
            self.counts.append(name)
        return v

    def inp(self, name, val):
        return self.ins.give(val, self.c["how"], name)

    def design(self):
        return self.inp("X", self.X)

    # coefficients: prior near-misses
    def prior(self, kind):
        p = self.c["p"]
        if kind == "mean=1.5":
            return self.lat("b", "normal", 1.5, 1.0, size=p, support="real")
        if kind == "mean vector":
            m = np.zeros(p)
            m[self.c["xseed"] % p] = -2.0
            return self.lat("b", "normal", m, 0.7, support="real")
        if kind == "mean symbolic vector":
            m = np.zeros(p)
            m[self.c["xseed"] % p] = 2.0
            return self.lat("b", "normal", self.inp("m", m), 0.7, support="real")
        if kind == "mean input":
            return self.lat("b", "normal", self.inp("m", -1.5), 1.0, size=p, support="real")
        if kind == "mean rv":
            m = self.lat("m", "normal", 1.0, 0.5, support="real")
            return self.lat("b", "normal", m, 0.5, size=p, support="real")
        if kind == "mean rv vector":
            m = self.lat("m", "normal", np.full(p, 1.0), 0.5, support="real")
            return self.lat("b", "normal", m, 0.5, support="real")
        if kind == "mean joined zeros":
            m = at.concatenate([at.zeros(p - 1), at.as_tensor([2.0])])
            return self.lat("b", "normal", m, 0.7, support="real")
        if kind == "mean set_subtensor":
            return self.lat("b", "normal", at.set_subtensor(at.zeros(p)[0], 2.0), 0.7, support="real")
        if kind == "laplace":
            return self.lat("b", "laplace", 0.0, 2.0, size=p, support="real")
        if kind == "logistic":
            return self.lat("b", "logistic", 0.0, 2.0, size=p, support="real")
        if kind == "t":
            return self.lat("b", "t", 2.0, 0.0, 1.0, size=p, support="real")
        if kind == "lognormal":
            return self.lat("b", "lognormal", 0.0, 1.0, size=p)
        if kind == "halfnormal":
            return self.lat("b", "halfnormal", 0.0, 1.0, size=p)
        if kind == "uniform":
            return self.lat("b", "uniform", -1.0, 1.0, size=p, support="real")
        if kind == "gumbel":
            return self.lat("b", "gumbel", 0.0, 1.0, size=p, support="real")
        raise AssertionError(kind)

    PRIORS = ["mean=1.5", "mean vector", "mean symbolic vector", "mean input", "mean rv", "mean rv vector", "mean joined zeros", "mean set_subtensor", "laplace", "logistic", "t", "lognormal", "halfnormal", "uniform", "gumbel"]

    def predictor(self, kind):
        """Minus the linear predictor and near-misses of it, or of its link."""
        X, p, n = self.design(), self.c["p"], self.c["n"]
        if kind in self.PRIORS:
            b = self.prior(kind)
            self.bad.append("b")
            return at.sigmoid(-(X @ b))
        b = self.lat("b", "normal", 0.0, 1.0, size=p, support="real")
        self.bad.append("b")
        eta = X @ b
        neg_one = np.full(n, -1.0)
        neg_one[self.c["xseed"] % n] = 2.0
        links = {
            "factor -2": lambda: at.sigmoid(-2.0 * eta),
            "factor +1": lambda: at.sigmoid(1.0 * eta),
            "no factor": lambda: at.sigmoid(eta),
            "factor -1/2": lambda: at.sigmoid(eta * -0.5),
            "factor array": lambda: at.sigmoid(neg_one * eta),
            "factor symbolic": lambda: at.sigmoid(self.inp("f", -3.0) * eta),
            "factor symbolic array": lambda: at.sigmoid(self.inp("f", neg_one) * eta),
            "factor ones array": lambda: at.sigmoid(np.ones(n) * eta),
            "factor -2 twice": lambda: at.sigmoid(-(X @ (2.0 * b))),
            "offset": lambda: at.sigmoid(-(eta + 2.0)),
            "offset outside": lambda: at.sigmoid(-eta - 2.0),
            "offset vector": lambda: at.sigmoid(-(eta + self.inp("o", np.full(n, 1.5)))),
            "offset rv": lambda: at.sigmoid(-(eta + self.lat("o", "normal", 1.0, 1.0, support="real"))),
            "two predictors": lambda: at.sigmoid(-(eta + X @ self.lat("b2", "normal", 0.0, 2.0, size=p, support="real"))),
            "coefficients cubed": lambda: at.sigmoid(-(X @ b**3)),
            "coefficients exp": lambda: at.sigmoid(-(X @ at.exp(b))),
            "coefficients reversed": lambda: at.sigmoid(-(X @ b[::-1])),
            "coefficients centred": lambda: at.sigmoid(-(X @ (b - b.mean()))),
            "coefficients cumulated": lambda: at.sigmoid(-(X @ at.cumsum(b))),
            "coefficients subset": lambda: at.sigmoid(-(X[:, :1] @ b[:1])),
            "coefficients of another": lambda: at.sigmoid(-(X @ (b * self.lat("g", "gamma", 2.0, 2.0)))),
            "left product": lambda: at.sigmoid(-(b @ self.inp("XT", self.X.T + 0.3))),
            "link probit": lambda: 0.5 * (1.0 + at.erf(-eta)),
            "link cloglog": lambda: 1.0 - at.exp(-at.exp(-eta)),
            "link complement": lambda: 1.0 - at.sigmoid(-eta),
            "link half": lambda: 0.5 * at.sigmoid(-eta),
            "link squared": lambda: at.sigmoid(-eta) ** 2,
            "link clipped": lambda: at.clip(at.sigmoid(-eta), 0.3, 0.6),
            "link mixed": lambda: 0.2 + 0.6 * at.sigmoid(-eta),
            "nonlinear": lambda: at.sigmoid(-(eta**3)),
            "abs": lambda: at.sigmoid(-abs(eta)),
            "reused in link": lambda: at.sigmoid(-eta) * at.sigmoid(b[0]),
            "quadratic": lambda: at.sigmoid(-(X @ (b * b))),
            "design depends": lambda: at.sigmoid(-((X * b) @ b)),
            "design depends 2": lambda: at.sigmoid(-(at.outer(at.as_tensor(self.X[:, 0]), b) @ b)),
        }
        return links[kind]()

    LINKS = ["factor -2", "factor +1", "no factor", "factor -1/2", "factor array", "factor symbolic", "factor symbolic array", "factor ones array", "factor -2 twice", "offset", "offset outside", "offset vector", "offset rv", "two predictors", "coefficients cubed", "coefficients exp", "coefficients reversed", "coefficients centred", "coefficients cumulated", "coefficients subset", "coefficients of another", "left product", "link probit", "link cloglog", "link complement", "link half", "link squared", "link clipped", "link mixed", "nonlinear", "abs", "reused in link", "quadratic", "design depends", "design depends 2"]

    # whole-model near-misses
    REUSE = ["two outcomes", "normal child", "hyper child", "observed twice", "second term"]

    def reuse(self, kind, dist, *pre):
        r, X, p = self.r, self.design(), self.c["p"]
        b = self.lat("b", "normal", 0.0, 1.0, size=p, support="real")
        self.bad.append("b")
        self.obs("Y", dist, *pre, at.sigmoid(-(X @ b)), counts=dist == "nbinom")
        if kind == "two outcomes":
            self.obs("Z", dist, *pre, at.sigmoid(-(self.inp("W", self.X[::-1] + 0.5) @ b)), counts=dist == "nbinom")
        elif kind == "normal child":
            self.obs("Z", "normal", b, 0.3)
        elif kind == "hyper child":
            c = self.lat("c", "normal", b.sum(), 0.5, support="real")
            self.obs("Z", "normal", c, 0.3)
        elif kind == "observed twice":
            self.obs("Z", "normal", X @ b, 0.3)
        elif kind == "second term":
            self.obs("Z", "poisson", at.exp(0.5 * b.sum()), counts=True)

    def bern(self, kind):
        if kind in self.REUSE:
            self.reuse(kind, "bernoulli")
        elif kind in self.SHAPES:
            self.shapes(kind, "bernoulli")
        else:
            self.obs("Y", "bernoulli", self.predictor(kind))

    def nb(self, kind):
        if kind in self.REUSE:
            self.reuse(kind, "nbinom", 2.0)
        elif kind in self.SHAPES:
            self.shapes(kind, "nbinom", 2.0)
        else:
            self.obs("Y", "nbinom", self.inp("h", 2.0), self.predictor(kind), counts=True)

    DISPERSIONS = ["exp of normal", "gamma + 1", "gamma * 2", "gamma squared", "lognormal", "exponential", "invgamma", "weibull", "gamma vector", "gamma of size 1", "vector with gamma", "shared by two", "scale of another", "halfcauchy", "chisquare", "sum of gammas", "in the probability"]

    def disp(self, kind):
        X, p, n = self.design(), self.c["p"], self.c["n"]
        b = self.lat("b", "normal", 0.0, 1.0, size=p, support="real")
        g = lambda nm="h", **kw: self.lat(nm, "gamma", 2.0, 1.0, **kw)  # noqa: E731
        h = {
            "exp of normal": lambda: at.exp(self.lat("h", "normal", 0.5, 0.5, support="real")),
            "gamma + 1": lambda: g() + 1.0,
            "gamma * 2": lambda: g() * 2.0,
            "gamma squared": lambda: g() ** 2 + 0.1,
            "lognormal": lambda: self.lat("h", "lognormal", 0.5, 0.5),
            "exponential": lambda: self.lat("h", "exponential", 2.0),
            "invgamma": lambda: self.lat("h", "invgamma", 3.0, 2.0),
            "weibull": lambda: self.lat("h", "weibull", 2.0),
            "halfcauchy": lambda: self.lat("h", "halfcauchy", 0.0, 1.0),
            "chisquare": lambda: self.lat("h", "chisquare", 3.0),
            "gamma vector": lambda: g(size=n),
            "gamma of size 1": lambda: g(size=1),
            "vector with gamma": lambda: at.as_tensor(np.linspace(0.5, 2, n)) * g(),
            "sum of gammas": lambda: g() + g("h2"),
        }.get(kind, g)()
        self.strict += ["h"]
        pr = at.sigmoid(-(X @ b))
        if kind == "in the probability":
            pr = at.sigmoid(-(X @ b) * h)
            self.strict.append("b")
        self.obs("Y", "nbinom", h, pr, counts=True)
        if kind == "shared by two":
            self.obs("Z", "nbinom", h, 0.4, counts=True, size=3)
        elif kind == "scale of another":
            self.obs("Z", "normal", 0.0, h, size=3)

    HORSESHOES = ["tau scale 3", "lambda scale 3", "lambda scales", "lambda scale symbolic", "tau loc", "lambda loc", "halfnormal lambda", "halfnormal tau", "gamma lambda", "exponential tau", "2 tau lambda", "tau^2 lambda", "tau lambda + 1", "tau lambda^2", "tau / lambda", "three scales", "sqrt", "mean=1", "mean vector", "laplace coefficients", "tau reused", "lambda reused", "tau of two", "tau twice", "sum of scales", "scaled by a vector", "cauchy", "lambda only", "tau only", "tau vector", "lambda observed", "tau observed", "one lambda", "one lambda, p coefficients", "lambda matrix", "coefficient matrix"]

    def hs(self, kind):
        if kind in ("lambda observed", "tau observed", "one lambda", "one lambda, p coefficients", "lambda matrix", "coefficient matrix"):
            return self.hs_shapes(kind)
        p, n = self.c["p"] + 1, self.c["n"]
        c1, c2 = (0.0, 1.0), (0.0, 1.0)
        if kind == "tau scale 3":
            c1 = (0.0, 3.0)
        elif kind == "lambda scale 3":
            c2 = (0.0, 3.0)
        elif kind == "lambda scales":
            c2 = (0.0, np.r_[np.ones(p - 1), 5.0])
        elif kind == "lambda scale symbolic":
            c2 = (0.0, self.inp("ls", 3.0))
        elif kind == "tau loc":
            c1 = (2.0, 1.0)
        elif kind == "lambda loc":
            c2 = (np.full(p, 2.0), 1.0)
        f1 = f2 = "halfcauchy"
        if kind == "halfnormal lambda":
            f2 = "halfnormal"
        elif kind == "halfnormal tau":
            f1 = "halfnormal"
        elif kind == "gamma lambda":
            f2, c2 = "gamma", (2.0, 2.0)
        elif kind == "exponential tau":
            f1, c1 = "exponential", (1.0,)
        elif kind == "cauchy":
            f2, f1 = "lognormal", "lognormal"
        tau = self.lat("tau", f1, *c1, size=(p,) if kind == "tau vector" else None)
        lam = self.lat("lambda", f2, *c2, size=None if np.ndim(c2[0]) or (len(c2) > 1 and np.ndim(c2[1])) else p)
        self.bad += ["tau", "lambda"]
        flip = self.c["xseed"] % 2
        sd = tau * lam if flip else lam * tau
        forms = {
            "2 tau lambda": lambda: 2.0 * sd,
            "tau^2 lambda": lambda: tau**2 * lam,
            "tau lambda^2": lambda: tau * lam**2,
            "tau lambda + 1": lambda: sd + 1.0,
            "tau / lambda": lambda: tau / lam,
            "three scales": lambda: sd * self.lat("c", "gamma", 2.0, 1.0),
            "sqrt": lambda: at.sqrt(sd),
            "tau twice": lambda: tau * tau * at.ones(p),
            "sum of scales": lambda: tau + lam,
            "scaled by a vector": lambda: sd * self.inp("sv", np.linspace(0.2, 4.0, p)),
            "lambda only": lambda: lam * self.inp("c", 0.5),
            "tau only": lambda: tau * at.ones(p),
        }
        sd = forms.get(kind, lambda: sd)()
        mean = {"mean=1": 1.5, "mean vector": np.r_[np.zeros(p - 1), 2.0]}.get(kind, 0.0)
        dist = "laplace" if kind == "laplace coefficients" else "normal"
        if self.c["observed_beta"]:
            self.obs("b", dist, mean, sd, size=None if np.ndim(mean) else p)
        else:
            b = self.lat("b", dist, mean, sd, size=None if np.ndim(mean) else p, support="real")
            X = self.inp("X", np.random.default_rng(self.c["xseed"]).normal(size=(n, p)))
            if kind in ("mean=1", "mean vector", "laplace coefficients"):
                self.bad.append("b")
            self.obs("Y", "bernoulli", at.sigmoid(-(X @ b)))
        if kind == "tau reused":
            self.obs("Z", "normal", 0.0, tau + 0.1, size=2)
        elif kind == "lambda reused":
            self.obs("Z", "poisson", at.clip(lam, 0.1, 20.0), counts=True)
        elif kind == "tau of two":
            l2 = self.lat("lambda2", "halfcauchy", 0.0, 1.0, size=2)
            self.bad.append("lambda2")
            self.obs("Z", "normal", 0.0, tau * l2)

    def hs_shapes(self, kind):
        p = self.c["p"] + 1
        lsize = {"one lambda": None, "one lambda, p coefficients": 1, "lambda matrix": (2, p)}.get(kind, p)
        bsize = {"lambda matrix": (2, p), "coefficient matrix": (2, p)}.get(kind, p)
        tau = (self.obs if kind == "tau observed" else self.lat)("tau", "halfcauchy", 0.0, 1.0)
        lam = (self.obs if kind == "lambda observed" else self.lat)("lambda", "halfcauchy", 0.0, 1.0, size=lsize)
        self.bad += [k for k in ("tau", "lambda") if k in self.latents]
        sd = tau * lam if self.c["xseed"] % 2 else lam * tau
        self.obs("b", "normal", 0.0, sd, size=bsize)

    SHAPES = ["vector design", "batched outcome", "coefficient matrix", "scalar coefficient product"]

    def shapes(self, kind, dist, *pre):
        n, p = self.c["n"], self.c["p"]
        counts = dist == "nbinom"
        self.bad.append("b")
        if kind == "coefficient matrix":
            b = self.lat("b", "normal", 0.0, 1.0, size=(p, 2), support="real")
            self.obs("Y", dist, *pre, at.sigmoid(-(self.design() @ b)), counts=counts)
        elif kind == "vector design":
            b = self.lat("b", "normal", 0.0, 1.0, size=p, support="real")
            self.obs("Y", dist, *pre, at.sigmoid(-at.dot(self.inp("x", self.X[0]), b)), counts=counts)
        elif kind == "batched outcome":
            b = self.lat("b", "normal", 0.0, 1.0, size=p, support="real")
            self.obs("Y", dist, *pre, at.sigmoid(-(self.design() @ b)), size=(3, n), counts=counts)
        else:
            b = self.lat("b", "normal", 0.0, 1.0, support="real")
            self.obs("Y", dist, *pre, at.sigmoid(-(self.inp("x", self.X[:, 0]) * b)), counts=counts)

    POISSON = ["2 lambda", "lambda + 1", "lambda^2", "reversed", "first", "sum", "cumulated", "exposure", "normal child", "two outcomes", "two outcomes scaled", "hyper child", "lognormal", "weibull", "invgamma", "halfnormal", "uniform", "chisquare", "exponential", "reshaped column", "stacked", "minimum", "mean of two", "own exposure"]

    def gp(self, kind):
        size = self.c["size"]
        if kind in ("reversed", "first", "sum", "cumulated", "reshaped column"):
            size = 3
        prior = {
            "lognormal": ("lognormal", 0.0, 1.0),
            "weibull": ("weibull", 2.0),
            "invgamma": ("invgamma", 3.0, 2.0),
            "halfnormal": ("halfnormal", 0.0, 2.0),
            "uniform": ("uniform", 0.0, 4.0),
            "chisquare": ("chisquare", 3.0),
            "exponential": ("exponential", 2.0),
        }.get(kind, ("gamma", self.inp("alpha", 2.0), self.inp("rate", 1.0)))
        lam = self.lat("lam", prior[0], *prior[1:], size=size, support="interval" if kind == "uniform" else "positive")
        self.bad.append("lam")
        rate = {
            "2 lambda": lambda: 2.0 * lam,
            "lambda + 1": lambda: lam + 1.0,
            "lambda^2": lambda: lam**2,
            "reversed": lambda: lam[::-1] * np.array([1.0, 2.0, 3.0]),
            "first": lambda: lam[0],
            "sum": lambda: lam.sum(),
            "cumulated": lambda: at.cumsum(lam),
            "exposure": lambda: lam * self.inp("e", 3.0),
            "reshaped column": lambda: lam[:, None] * at.ones((3, 2)),
            "stacked": lambda: at.stack([lam, 3.0 * lam]),
            "minimum": lambda: at.minimum(lam, 2.0),
            "mean of two": lambda: 0.5 * (lam + self.lat("lam2", "gamma", 2.0, 1.0)),
            "own exposure": lambda: lam * at.exp(-0.3 * lam),
        }.get(kind, lambda: lam)()
        self.obs("Y", "poisson", rate, counts=True)
        if kind == "normal child":
            self.obs("Z", "normal", lam, 0.3)
        elif kind == "two outcomes":
            self.obs("Z", "poisson", lam, counts=True)
        elif kind == "two outcomes scaled":
            self.obs("Z", "poisson", 4.0 * lam, counts=True)
        elif kind == "hyper child":
            c = self.lat("c", "gamma", 2.0, lam)
            self.obs("Z", "normal", c, 0.3)

    BETA = ["complement", "half", "squared", "reversed", "first", "normal child", "two outcomes", "hyper child", "uniform", "logit-normal", "trials reuse", "product", "random trials", "geometric", "mixture", "beta transformed"]

    def bb(self, kind, dist="binomial"):
        size = 3 if kind in ("reversed", "first") else self.c["size"]
        counts = dist != "binomial"
        if kind == "uniform":
            p = self.lat("p", "uniform", 0.05, 0.95, size=size, support="unit")
        elif kind == "logit-normal":
            p = at.sigmoid(self.lat("p", "normal", 0.0, 1.0, size=size, support="real"))
        elif kind == "beta transformed":
            p = 0.2 + 0.6 * self.lat("p", "beta", 1.5, 2.0, size=size, support="unit")
        else:
            p = self.lat("p", "beta", self.inp("alpha", 1.5), self.inp("beta", 2.0), size=size, support="unit")
        (self.strict if counts else self.bad).append("p")
        n = self.inp("n", 6)
        if dist == "binomial":
            n = at.cast(n, "int64")
        pr = {
            "complement": lambda: 1.0 - p,
            "half": lambda: 0.5 * p,
            "squared": lambda: p**2,
            "reversed": lambda: p[::-1],
            "first": lambda: p[0],
            "product": lambda: p * self.lat("p2", "beta", 2.0, 2.0, support="unit"),
            "mixture": lambda: at.switch(at.gt(n, 3), 0.3 + 0.5 * p, p),
        }.get(kind, lambda: p)()
        if kind == "trials reuse":
            n = at.cast(1 + at.floor(8 * p), "int64") if dist == "binomial" else 1 + 3.0 * p
        if kind == "geometric":
            self.obs("Y", "geometric", 0.05 + 0.95 * pr, counts=True)
        else:
            self.obs("Y", dist, n, pr, counts=counts)
        if kind == "normal child":
            self.obs("Z", "normal", p, 0.2)
        elif kind == "two outcomes":
            self.obs("Z", dist, n, p, counts=counts)
        elif kind == "hyper child":
            c = self.lat("c", "gamma", 2.0, p + 0.1)
            self.obs("Z", "normal", c, 0.3)
        elif kind == "random trials" :
            self.obs("Z", "bernoulli", p)

    def bnb(self, kind):
        self.bb(kind, "nbinom")

    def prior_function(self):
        names = list(self.latents) + list(self.observed)
        rvs = {**self.latents, **self.observed}
        f = aesara.function(self.ins.vars, [rvs[k] for k in names], on_unused_input="ignore")
        return lambda: dict(zip(names, f(*self.ins.vals)))


KINDS = {
    "bern": Near.PRIORS + Near.LINKS + Near.REUSE + Near.SHAPES,
    "nb": Near.PRIORS + Near.LINKS + Near.REUSE + Near.SHAPES,
    "disp": Near.DISPERSIONS,
    "hs": Near.HORSESHOES,
    "gp": Near.POISSON,
    "bb": Near.BETA,
    "bnb": [k for k in Near.BETA if k != "reversed"],
}


@st.composite
def near_cases(draw):
    family, kind = draw(st.sampled_from([(f, k) for f, ks in KINDS.items() for k in ks]))
    return dict(
        family=family,
        kind=kind,
        how=draw(st.sampled_from(["const", "input", "shared", "expr"])),
        n=draw(st.sampled_from([6, 4, 9])),
        p=draw(st.sampled_from([2, 3])),
        size=draw(st.sampled_from([None, (), 3, (2, 2)])),
        observed_beta=draw(st.booleans()),
        xseed=draw(st.integers(0, 9999)),
        seed=draw(seeds),
    )


def near_check(case, ctx):
    b = Built(case, case["seed"], model=Near, compile_it=False)
    nuts = b.nuts
    spec = [k for k in b.latents if k not in nuts]
    wrong = [k for k in b.model.strict if k in spec]
    if wrong:
        raise Violation(f"{wrong} got a specialised step in a model ({case['family']}: {case['kind']}) that isn't of that step's form")
    if not [k for k in b.model.bad if k in spec]:
        ctx.counters["left to NUTS"] += 1
        return
    ctx.counters["specialised: " + case["family"] + " " + case["kind"]] += 1
    with sut("compile the sampler"):
        b = Built(case, case["seed"], model=Near, hold=[])
    draw = b.model.prior_function()

    def pvals(n, stage):
        t0, t1, ys = pairs(b, draw, n, 2, ctx)
        names = list(t0[0])
        ref = {nm: np.sort([t[nm] for t in t0]) for nm in names}
        qn = list(ys[0])
        q = np.stack([rank_in(np.sort([y[k] for y in ys]), np.array([y[k] for y in ys])) - 0.5 for k in qn], 1)
        a, labels = functional_means(names, ref, qn, t0, q)
        c = sum(functional_means(names, ref, qn, [t[i] for t in t1], q)[0] for i in range(2)) / 2
        return stats.paired_means(c, a, labels)

    msg = stats.decide(pvals, 500)
    if msg:
        raise Violation(f"{[k for k in b.model.bad if k in spec]} got a specialised step in a model ({case['family']}: {case['kind']}) for which it isn't valid: {msg}")


SUBS = [
    Sub(
        "forms",
        form_cases(),
        form_check,
        quick=600,
        thorough=12000,
        shards=8,
        label=lambda c: [c["form"], f"{c['form']} scale={c['scale']}", "X=" + c["X"] if c["form"] in ("bern", "nb") else "", "mean=" + c["mean"] if c["form"] in ("bern", "nb") else "", "p0=" + c["p0"]],
        rule="a documented model form, built in one of the equivalent ways, for which a sampler was constructed",
    ),
    Sub(
        "near",
        near_cases(),
        near_check,
        quick=800,
        thorough=9000,
        shards=8,
        label=lambda c: [c["family"], c["family"] + " " + c["kind"]],
        rule="a model that differs from a documented form in one respect, for which a sampler was constructed and its classification decided",
        weight=1.5,
    ),
]
