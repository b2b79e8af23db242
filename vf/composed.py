"""Generated models that combine several blocks, with dependencies between them.

A model is described by a plain (JSON-able) specification, from which
`Model` builds the symbolic graph, its observed variables and their values.
"""
import numpy as np
from hypothesis import strategies as st

import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from vf.build import PASSING, Inputs, seeds

POSITIVE = ["gamma", "lognormal", "exponential", "halfnormal"]
REAL = ["normal", "laplace", "logistic"]


@st.composite
def source(draw, kind, n, allow_rv=True):
    """Where a (positive or real) parameter comes from."""
    how = draw(st.sampled_from(PASSING + ["rv"] * 4 if n and allow_rv else PASSING))
    if how == "rv":
        return dict(rv=draw(st.integers(0, n - 1)), f=draw(st.sampled_from(["id", "id", "scaled"])))
    vals = [0.5, 1.0, 2.0, 3.5] if kind == "pos" else [-1.0, 0.0, 0.5, 2.0]
    return dict(how=how, val=draw(st.sampled_from(vals)))


BLOCKS = ["hyper_pos", "hyper_real", "gp", "bb", "bern", "nb", "normal", "uniform", "shared", "simplex", "hs_obs"]


@st.composite
def models(draw, kinds=None, max_blocks=3, counts=True, allow_bnb=False):
    """A list of blocks; later blocks can depend on the variables of earlier ones."""
    kinds = list(kinds or BLOCKS)
    n = draw(st.sampled_from([1, 2, 2, 3, 3][: 2 * max_blocks - 1]))
    pos, real = 0, 0  # scalar variables available so far
    blocks = []
    for i in range(n):
        choices = kinds if i < n - 1 else [k for k in kinds if not k.startswith("hyper")] or kinds
        if i == 0 and n > 1 and draw(st.booleans()):
            choices = [k for k in kinds if k.startswith("hyper")] or choices
        kind = draw(st.sampled_from(choices))
        b = dict(kind=kind)
        if kind == "hyper_pos":
            b.update(family=draw(st.sampled_from(POSITIVE)), par=draw(source("pos", pos)))
            pos += 1
        elif kind == "hyper_real":
            b.update(family=draw(st.sampled_from(REAL)), par=draw(source("real", real)))
            real += 1
        elif kind in ("gp", "bb", "bnb"):
            size = draw(st.sampled_from([(), (), (1,), (2,), (3,)]))
            b.update(
                size=size,
                lead=draw(st.sampled_from([(), (2,), (5,)])),
                alpha=draw(source("pos", pos)),
                beta=draw(source("pos", pos)),
                trials=draw(st.sampled_from([1, 3, 8])),
            )
            if size == () and kind == "gp":
                pos += 1
        elif kind in ("bern", "nb"):
            b.update(
                n=draw(st.sampled_from([6, 3, 10, 2, 1])),
                p=draw(st.sampled_from([2, 1, 3])),
                xseed=draw(st.integers(0, 9999)),
                X_how=draw(st.sampled_from(PASSING)),
                scale=draw(st.sampled_from(["par", "par", "vector", "horseshoe", "rv_vector"])),
                par=draw(source("pos", pos)),
            )
            if kind == "nb":
                b.update(h=draw(st.sampled_from(["par", "gamma", "gamma", "lognormal", "vector"])), hpar=draw(source("pos", pos)), hpar2=draw(source("pos", pos)))
        elif kind == "normal":
            b.update(
                size=draw(st.sampled_from([(), (2,), (3,)])),
                loc=draw(source("real", real)),
                scale=draw(source("pos", pos)),
                obs_scale=draw(st.sampled_from(["const", "rv"])),
                rep=draw(st.sampled_from([1, 3])),
            )
            if b["size"] == ():
                real += 1
        elif kind == "uniform":
            b.update(lo=draw(source("real", real)), width=draw(source("pos", pos)), size=draw(st.sampled_from([(), (2,)])))
        elif kind == "shared":
            b.update(family=draw(st.sampled_from(["poisson+normal", "binomial+binomial", "poisson+poisson", "binomial+sd"])), par=draw(source("pos", pos)))
        elif kind == "simplex":
            b.update(k=draw(st.sampled_from([2, 3])), par=draw(source("pos", pos)))
        elif kind == "hs_obs":
            b.update(p=draw(st.sampled_from([2, 1, 4])), order=draw(st.sampled_from([0, 1])))
        blocks.append(b)
    names = draw(st.sampled_from(["", "", "", "none", "same", "swapped"]))
    if names:
        blocks[0]["names"] = names
    return blocks


class Model:
    """The symbolic model built from a specification."""

    def __init__(self, blocks, srng, obs_how="clone"):
        self.srng = srng
        self.ins = Inputs()
        self.latents = {}  # name -> variable, in declaration order
        self.observed = {}  # name -> variable
        self.support = {}  # name -> description of a latent's support
        self.pos, self.real = [], []
        self.counts = []  # names of observed counts
        self.gamma_h = []  # dispersion parameters with a gamma prior
        self.specialised = {}  # latent -> is a specialised step expected?
        self.regressions = {}
        for i, b in enumerate(blocks):
            getattr(self, b["kind"])(b, str(i))
        self.rename(blocks[0].get("names"))

    def rename(self, how):
        """Names identify nothing: variables can have the same one, none, or that
        of another variable."""
        vs = [*self.latents.values(), *self.observed.values(), *self.ins.vars]
        if how == "swapped":
            names = [v.name for v in vs]
            for v, k in zip(vs, names[::-1]):
                v.name = k
        elif how:
            for v in vs:
                v.name = "x" if how == "same" else None

    def src(self, s, kind, name):
        if "rv" in s:
            pool = self.pos if kind == "pos" else self.real
            v = pool[s["rv"] % len(pool)]
            if s["f"] == "scaled":
                return v * 2.0 + 0.1 if kind == "pos" else v * 0.5
            return v
        return self.ins.give(s["val"], s["how"], name)

    def latent(self, rv, support):
        self.latents[rv.name] = rv
        self.support[rv.name] = support
        return rv

    def obs(self, rv, counts=False):
        self.observed[rv.name] = rv
        if counts:
            self.counts.append(rv.name)
        return rv

    def positive(self, family, par, name, size=None):
        r = self.srng
        if family == "gamma":
            v = r.gamma(par + 1.0, 1.0, size=size, name=name)
        elif family == "lognormal":
            v = r.lognormal(at.log(par) * 0.3, 0.5, size=size, name=name)
        elif family == "exponential":
            v = r.exponential(par, size=size, name=name)
        else:
            v = r.halfnormal(0.0, par, size=size, name=name)
        return self.latent(v, "positive")

    def hyper_pos(self, b, i):
        self.pos.append(self.positive(b["family"], self.src(b["par"], "pos", f"par{i}"), f"a{i}"))

    def hyper_real(self, b, i):
        dist = getattr(self.srng, b["family"])
        v = dist(self.src(b["par"], "real", f"par{i}"), 0.7, name=f"m{i}")
        self.real.append(self.latent(v, "real"))

    def gp(self, b, i):
        alpha, rate = self.src(b["alpha"], "pos", f"alpha{i}"), self.src(b["beta"], "pos", f"rate{i}")
        size = tuple(b["size"])
        lam = self.latent(self.srng.gamma(alpha + 0.2 if "rv" in b["alpha"] else alpha, rate, size=size, name=f"lam{i}"), "positive")
        self.obs(self.srng.poisson(lam, size=tuple(b["lead"]) + size, name=f"Y{i}"), counts=True)
        if size == ():
            self.pos.append(lam)

    def bb(self, b, i, nb=False):
        alpha, beta = self.src(b["alpha"], "pos", f"alpha{i}"), self.src(b["beta"], "pos", f"beta{i}")
        size = tuple(b["size"])
        p = self.latent(self.srng.beta(alpha + 0.2, beta + 0.2, size=size, name=f"p{i}"), "unit")
        dist = self.srng.nbinom if nb else self.srng.binomial
        self.obs(dist(b["trials"], p, size=tuple(b["lead"]) + size, name=f"Y{i}"), counts=nb)

    def bnb(self, b, i):
        self.bb(b, i, nb=True)

    def coefficients(self, b, i):
        n, p = b["n"], b["p"]
        X = np.round(np.random.default_rng(b["xseed"]).uniform(-1.2, 1.2, size=(n, p)), 2)
        X[np.all(X == 0, axis=1)] = 0.5
        how = b["X_how"]
        if how == "const":
            Xv = at.as_tensor(X)
        elif how == "shared":
            Xv = aesara.shared(X, name=f"X{i}")
        else:
            Xv = self.ins.add(at.dmatrix(f"X{i}"), X)
            if how == "expr":
                Xv = Xv * 1.0
        r = self.srng
        if b["scale"] == "horseshoe":
            tau = self.latent(r.halfcauchy(0, 1, name=f"tau{i}"), "positive")
            lam = self.latent(r.halfcauchy(0, 1, size=p, name=f"lambda{i}"), "positive")
            sd = tau * lam
        elif b["scale"] == "vector":
            sd = self.ins.give(np.linspace(0.5, 1.5, p), b["X_how"], f"sd{i}")
        elif b["scale"] == "rv_vector":
            sd = self.latent(r.gamma(3.0, 3.0, size=p, name=f"s{i}"), "positive")
        else:
            sd = self.src(b["par"], "pos", f"sd{i}")
            sd = sd * 0.5 if "rv" in b["par"] else sd
        beta = self.latent(r.normal(0, sd, size=p, name=f"beta{i}"), "real")
        self.regressions[beta.name] = X
        return Xv, beta

    def bern(self, b, i):
        X, beta = self.coefficients(b, i)
        self.obs(self.srng.bernoulli(at.sigmoid(-(X @ beta)), name=f"Y{i}"))

    def nb(self, b, i):
        r = self.srng
        par = self.src(b["hpar"], "pos", f"h{i}a")
        if b["h"] == "gamma":
            h = self.latent(r.gamma(par, self.src(b["hpar2"], "pos", f"h{i}b"), name=f"h{i}"), "positive")
            self.gamma_h.append(h.name)
        elif b["h"] == "lognormal":
            h = self.latent(r.lognormal(0.0, 0.5, name=f"h{i}"), "positive")
        elif b["h"] == "vector":
            h = self.ins.give(np.linspace(0.5, 3.0, b["n"]), b["hpar"].get("how", "input"), f"h{i}")
        else:
            h = par
        X, beta = self.coefficients(b, i)
        self.obs(r.nbinom(h, at.sigmoid(-(X @ beta)), name=f"Y{i}"), counts=True)

    def normal(self, b, i):
        r = self.srng
        loc, sc = self.src(b["loc"], "real", f"loc{i}"), self.src(b["scale"], "pos", f"sc{i}")
        size = tuple(b["size"])
        mu = self.latent(r.normal(loc, sc, size=size, name=f"mu{i}"), "real")
        if b["obs_scale"] == "rv":
            sd = self.positive("lognormal", 1.0, f"sd{i}")
        else:
            sd = 0.8
        self.obs(r.normal(mu, sd, size=(b["rep"],) + size, name=f"Y{i}"))
        if size == ():
            self.real.append(mu)

    def uniform(self, b, i):
        r = self.srng
        lo, w = self.src(b["lo"], "real", f"lo{i}"), self.src(b["width"], "pos", f"w{i}")
        u = self.latent(r.uniform(lo, lo + w, size=tuple(b["size"]), name=f"u{i}"), "interval")
        self.obs(r.normal(u, 0.5, name=f"Y{i}"))

    def shared(self, b, i):
        r = self.srng
        par = self.src(b["par"], "pos", f"par{i}")
        if b["family"].startswith("binomial"):
            v = self.latent(r.beta(par + 0.2, 2.0, name=f"p{i}"), "unit")
            self.obs(r.binomial(5, v, name=f"Y{i}"))
            self.obs(r.binomial(3, v, name=f"Z{i}") if b["family"] == "binomial+binomial" else r.normal(0.0, v + 0.1, size=3, name=f"Z{i}"))
        else:
            v = self.latent(r.gamma(par + 0.2, 1.0, name=f"lam{i}"), "positive")
            self.obs(r.poisson(v, name=f"Y{i}"), counts=True)
            self.obs(r.poisson(v * 2.0, name=f"Z{i}", size=2) if b["family"] == "poisson+poisson" else r.normal(v, 0.7, name=f"Z{i}"), counts=b["family"] == "poisson+poisson")

    def simplex(self, b, i):
        r = self.srng
        par = self.src(b["par"], "pos", f"par{i}")
        k = b["k"]
        d = self.latent(r.dirichlet(at.ones(k) * (par + 0.5), name=f"d{i}"), "simplex")
        self.obs(r.normal(at.dot(d, np.arange(1.0, k + 1)), 0.3, size=2, name=f"Y{i}"))

    def hs_obs(self, b, i):
        r = self.srng
        tau = self.latent(r.halfcauchy(0, 1, name=f"tau{i}"), "positive")
        lam = self.latent(r.halfcauchy(0, 1, size=b["p"], name=f"lambda{i}"), "positive")
        sd = tau * lam if b["order"] else lam * tau
        self.obs(r.normal(0, sd, size=b["p"], name=f"beta{i}"))

    # -- use of the model

    def prior_function(self):
        """Draws every variable of the model jointly."""
        names = list(self.latents) + list(self.observed)
        rvs = {**self.latents, **self.observed}
        f = aesara.function(self.ins.vars, [rvs[k] for k in names], on_unused_input="ignore")

        def draw():
            return dict(zip(names, f(*self.ins.vals)))

        return draw


def used_latents(model):
    """The latents that the observed variables depend on."""
    from aesara.graph.basic import ancestors

    anc = set(ancestors(list(model.observed.values())))
    return {k: v for k, v in model.latents.items() if v in anc}


@st.composite
def with_dispersion(draw, blocks):
    """The blocks, with a negative-binomial regression with a gamma dispersion (the
    only step that consists of several kernels and a scan) last."""
    extra = draw(models(kinds=["nb"], max_blocks=1))[-1]
    return blocks[:2] + [dict(extra, h="gamma")]


@st.composite
def any_models(draw, max_blocks=4):
    """Models of all kinds of blocks, for the properties without exceptions."""
    n = max_blocks if max_blocks == 3 or draw(st.integers(0, 3)) == 0 else 3
    blocks = draw(models(kinds=BLOCKS + ["bnb"], max_blocks=n))
    return draw(with_dispersion(blocks)) if draw(st.integers(0, 4)) == 4 else blocks


def label(blocks):
    ls = [b["kind"] for b in blocks]
    for b in blocks:
        for k, v in b.items():
            if isinstance(v, dict) and "rv" in v:
                ls.append("cross-block dependency")
        if b["kind"] in ("bern", "nb"):
            ls.append(f"{b['kind']} scale={b['scale']}")
        if b["kind"] == "nb":
            ls.append(f"nb h={b['h']}")
    ls.append("blocks=%d" % len(blocks))
    ls.append("names:" + (blocks[0].get("names") or "distinct"))
    return ls
