"""Generated models of continuous variables with an independent log-density.

A model is a list of variable specifications; each parameter of a variable is
given directly or is a function of an earlier variable.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from scipy.special import gammaln

import aesara.tensor as at

from vf.build import PASSING, Inputs

# family -> (kinds of the parameters, support)
FAMILIES = {
    "normal": (["real", "pos"], "real"),
    "laplace": (["real", "pos"], "real"),
    "logistic": (["real", "pos"], "real"),
    "cauchy": (["real", "pos"], "real"),
    "gumbel": (["real", "pos"], "real"),
    "t": (["df", "real", "pos"], "real"),
    "gamma": (["pos", "pos"], "positive"),
    "exponential": (["pos"], "positive"),
    "lognormal": (["real", "pos"], "positive"),
    "halfnormal": (["real", "pos"], "halfline"),
    "halfcauchy": (["zero", "pos"], "positive"),
    "invgamma": (["pos", "pos"], "positive"),
    "chisquare": (["pos"], "positive"),
    "wald": (["pos", "pos"], "positive"),
    "beta": (["pos", "pos"], "unit"),
    "uniform": (["real", "width"], "interval"),
    "triangular": (["real", "width"], "interval"),
    "dirichlet": (["conc"], "simplex"),
    "mvnormal": (["mean", "cov"], "real"),
}
SCALARS = [f for f in FAMILIES if f not in ("dirichlet", "mvnormal")]
VALS = {"real": [-1.0, 0.0, 0.5, 2.0], "pos": [0.5, 1.0, 2.0, 3.5], "df": [3.0, 5.0], "width": [0.5, 1.0, 2.0, 3.5], "zero": [0.0], "conc": [0.5, 1.0, 2.0]}


def lpdf(family, x, pars):
    if family in ("normal", "laplace", "logistic", "cauchy"):
        d = {"normal": ss.norm, "laplace": ss.laplace, "logistic": ss.logistic, "cauchy": ss.cauchy}[family]
        return d.logpdf(x, pars[0], pars[1]).sum()
    if family == "gumbel":
        return ss.gumbel_r.logpdf(x, pars[0], pars[1]).sum()
    if family == "t":
        return ss.t.logpdf(x, pars[0], pars[1], pars[2]).sum()
    if family == "gamma":
        return ss.gamma.logpdf(x, pars[0], scale=1 / np.asarray(pars[1])).sum()
    if family == "exponential":
        return ss.expon.logpdf(x, scale=pars[0]).sum()
    if family == "lognormal":
        return ss.lognorm.logpdf(x, pars[1], scale=np.exp(pars[0])).sum()
    if family == "halfnormal":
        return ss.halfnorm.logpdf(x, pars[0], pars[1]).sum()
    if family == "halfcauchy":
        return ss.halfcauchy.logpdf(x, pars[0], pars[1]).sum()
    if family == "invgamma":
        return ss.invgamma.logpdf(x, pars[0], scale=pars[1]).sum()
    if family == "chisquare":
        return ss.chi2.logpdf(x, pars[0]).sum()
    if family == "wald":
        m, lam = np.asarray(pars[0]), np.asarray(pars[1])
        return (0.5 * np.log(lam / (2 * np.pi * x**3)) - lam * (x - m) ** 2 / (2 * m**2 * x) + 0 * x).sum()
    if family == "beta":
        return ss.beta.logpdf(x, pars[0], pars[1]).sum()
    if family == "uniform":
        lo, w = np.broadcast_arrays(*np.broadcast_arrays(pars[0], pars[1]))
        return ss.uniform.logpdf(x, lo, w).sum()
    if family == "triangular":
        return ss.triang.logpdf(x, 0.3, pars[0], pars[1]).sum()
    if family == "dirichlet":
        x = np.atleast_2d(x)
        a = np.broadcast_to(np.atleast_2d(pars[0]), x.shape)
        return float(np.sum(gammaln(a.sum(-1)) - gammaln(a).sum(-1) + ((a - 1) * np.log(x)).sum(-1)))
    if family == "mvnormal":
        return np.sum(ss.multivariate_normal.logpdf(np.atleast_2d(x), pars[0], pars[1]))
    raise KeyError(family)


@st.composite
def par(draw, kind, earlier, size):
    """How one parameter is given; `earlier` maps a kind to usable variables."""
    if kind == "zero":
        return dict(how="const", val=0.0)
    if kind == "mean":
        return dict(how=draw(st.sampled_from(PASSING)), val=draw(st.lists(st.sampled_from(VALS["real"]), min_size=2, max_size=2)))
    if kind == "cov":
        return dict(how=draw(st.sampled_from(PASSING)), val=draw(st.sampled_from([[[1.0, 0.3], [0.3, 0.5]], [[2.0, -0.7], [-0.7, 1.0]]])), plain=True)
    if kind == "conc":
        k = draw(st.sampled_from([2, 3, 4]))
        cands = earlier["pos"]
        if cands and draw(st.booleans()):
            return dict(rv=draw(st.sampled_from(cands)), f="id", ones=k)
        return dict(how=draw(st.sampled_from(PASSING)), val=draw(st.lists(st.sampled_from(VALS["conc"]), min_size=k, max_size=k)))
    cands = earlier["real" if kind == "real" else "pos"]
    if cands and kind != "df" and draw(st.integers(0, 2)) > 0:
        return dict(rv=draw(st.sampled_from(cands)), f=draw(st.sampled_from(["id", "scaled", "mixed"])))
    vec = bool(size) and draw(st.integers(0, 3)) == 0
    val = draw(st.lists(st.sampled_from(VALS[kind]), min_size=size[-1], max_size=size[-1])) if vec else draw(st.sampled_from(VALS[kind]))
    return dict(how=draw(st.sampled_from(PASSING)), val=val)


@st.composite
def models(draw, max_vars=4, families=None):
    n = draw(st.sampled_from([2, 1, 2, 3, 3, 4][: 2 * max_vars - 1]))
    vs, earlier = [], {"real": [], "pos": []}
    for i in range(n):
        family = draw(st.sampled_from(families or list(FAMILIES)))
        kinds, support = FAMILIES[family]
        multi = family in ("dirichlet", "mvnormal")
        size = draw(st.sampled_from([(), (), (2,)] if multi else [(), (), (1,), (2,), (3,), (2, 2)]))
        pars = [draw(par(k, earlier, size)) for k in kinds]
        vs.append(dict(family=family, size=size, pars=pars))
        if size == () and not multi:
            # "real" also accepts positive values
            earlier["real"].append(i)
            if support in ("positive", "unit") :
                earlier["pos"].append(i)
    n_obs = draw(st.sampled_from([1, 1, 2]))
    obs = [
        dict(
            of=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
            sd=draw(st.sampled_from(earlier["pos"] + [None])),
            reps=draw(st.sampled_from([1, 2, 3])),
            elementwise=draw(st.booleans()),
        )
        for _ in range(n_obs)
    ]
    # every variable has to be connected to an observation
    used = set(o for ob in obs for o in ob["of"])
    rest = [i for i in range(n) if i not in used]
    obs[0]["of"] = obs[0]["of"] + rest
    return dict(vars=vs, obs=obs)


def apply(f, v):
    if f == "id":
        return v
    if f == "scaled":
        return v * 2.0 + 0.25
    return (v + 0.5) * (v + 1.0) / (v * v + 1.0) + 0.1 if f == "mixed" else v


class Model:
    def __init__(self, spec, srng):
        self.spec, self.srng = spec, srng
        self.ins = Inputs()
        self.rvs = []
        for i, v in enumerate(spec["vars"]):
            pars = [self.sym(p, f"v{i}p{j}") for j, p in enumerate(v["pars"])]
            fam, size = v["family"], tuple(v["size"]) or None
            if fam == "uniform":
                pars = [pars[0], pars[0] + pars[1]]
            elif fam == "triangular":
                pars = [pars[0], pars[0] + 0.3 * pars[1], pars[0] + pars[1]]
            name = "multivariate_normal" if fam == "mvnormal" else fam
            self.rvs.append(getattr(srng, name)(*pars, size=size, name=f"x{i}"))
        self.obs = []
        for j, ob in enumerate(spec["obs"]):
            loc, sd = self.obs_loc(ob, self.rvs), 0.7 if ob["sd"] is None else self.rvs[ob["sd"]]
            self.obs.append(srng.normal(loc, sd, size=None if self.elementwise(ob) else (ob["reps"],), name=f"Y{j}"))

    def elementwise(self, ob):
        return ob["elementwise"] and tuple(self.spec["vars"][ob["of"][0]]["size"]) != ()

    def weights(self, i):
        v = self.spec["vars"][i]
        shape = tuple(v["size"])
        if v["family"] in ("dirichlet", "mvnormal"):
            p = v["pars"][0]
            shape += (p["ones"] if "ones" in p else len(p["val"]),)
        n = int(np.prod(shape))
        return ((1.0 + np.arange(n)) / (n + 1)).reshape(shape)

    def obs_loc(self, ob, vals):
        # (aeppl can't handle some trivial expressions, like `0.0 + x` and `x.flatten()`)
        loc = None
        for k, i in enumerate(ob["of"]):
            v = vals[i] if k == 0 and self.elementwise(ob) else (vals[i] * self.weights(i)).sum()
            loc = v if loc is None else loc + v
        return loc

    def sym(self, p, name):
        if "rv" in p:
            v = apply(p["f"], self.rvs[p["rv"]])
            return at.ones(p["ones"]) * v if "ones" in p else v
        if p.get("plain") and p["how"] == "expr":
            return self.ins.give(p["val"], "input", name) * 1.0
        return self.ins.give(p["val"], p["how"], name)

    def num(self, p, vals):
        if "rv" in p:
            v = apply(p["f"], np.asarray(vals[p["rv"]]))
            return np.ones(p["ones"]) * v if "ones" in p else v
        return np.asarray(p["val"], float)

    def log_density(self, vals, ys):
        """log p(all variables, observations) by scipy."""
        res = 0.0
        for i, v in enumerate(self.spec["vars"]):
            res += lpdf(v["family"], np.asarray(vals[i]), [self.num(p, vals) for p in v["pars"]])
        for ob, y in zip(self.spec["obs"], ys):
            sd = 0.7 if ob["sd"] is None else vals[ob["sd"]]
            res += ss.norm.logpdf(y, self.obs_loc(ob, vals), sd).sum()
        return float(res)

    def support(self, i):
        return FAMILIES[self.spec["vars"][i]["family"]][1]

    def in_support(self, i, vals):
        x, s = np.asarray(vals[i]), self.support(i)
        if s == "positive":
            return bool(np.all(x >= 0))
        if s == "unit":
            return bool(np.all((x >= 0) & (x <= 1)))
        if s == "simplex":
            return bool(np.all(x >= 0) and np.allclose(x.sum(-1), 1))
        if s in ("interval", "halfline"):
            lo = self.num(self.spec["vars"][i]["pars"][0], vals)
            ok = x >= lo - 1e-9
            if s == "interval":
                ok = ok & (x <= lo + self.num(self.spec["vars"][i]["pars"][1], vals) + 1e-9)
            return bool(np.all(ok))
        return bool(np.all(np.isfinite(x)))

    def free(self, i, x):
        """The free coordinates of a value (all but the last of a simplex)."""
        x = np.asarray(x, float)
        return np.ravel(x[..., :-1] if self.support(i) == "simplex" else x)
