"""C01: conjugate posterior steps draw from the exact posterior.

Oracle: the textbook posterior (scipy CDFs).  Every draw is pushed through the
exact posterior CDF; the results must be i.i.d. uniform.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

import aemcmc
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds
from vf.core import Sub, Violation, sut

ASSUMPTIONS = [
    "Aesara's random variables and scipy's distribution functions are correct",
    "hyperparameters in [0.3, 60], counts up to about 1e3, at most 2 prior dimensions and 3 data dimensions",
]

HYPER = PASSING + ["python", "observed_rv"]


@st.composite
def cases(draw):
    pair = draw(st.sampled_from(["gamma_poisson", "beta_binomial", "beta_nbinom"]))
    prior_ndim = draw(st.sampled_from([0, 0, 1, 1, 1, 2]))
    # A dimension of (static) length one can be broadcasted against the observations'
    prior_shape = tuple(draw(st.sampled_from([1, 2, 3, 5])) for _ in range(prior_ndim))
    # Where does the prior's shape come from?
    shape_from = draw(st.sampled_from(["size", "alpha", "beta", "both"])) if prior_ndim else "size"
    # The observations' shape: possibly broadcasted ones, and new leading dimensions
    obs_shape = tuple(
        draw(st.sampled_from([1, 4])) if s == 1 else s for s in prior_shape
    )
    lead = draw(st.sampled_from([(), (), (1,), (3,), (7,), (2, 3), (40,)]))
    if len(lead) + prior_ndim > 3:
        lead = lead[:1]
    obs_shape = lead + obs_shape
    a_shape = prior_shape if shape_from in ("alpha", "both") else ()
    b_shape = prior_shape if shape_from in ("beta", "both") else ()
    hyper = logu(0.3, 60)
    case = dict(
        pair=pair,
        prior_shape=prior_shape,
        obs_shape=obs_shape,
        shape_from=shape_from,
        # `size=None` whenever the parameters already have the right shape
        explicit_size=draw(st.booleans()),
        alpha=draw(arr(hyper, a_shape)),
        beta=draw(arr(hyper, b_shape)),
        alpha_how=draw(st.sampled_from(HYPER)),
        beta_how=draw(st.sampled_from(HYPER)),
        y_how=draw(st.sampled_from(["input", "input", "clone", "const", "shared"])),
        seed=draw(seeds),
    )
    if pair == "gamma_poisson":
        y = st.sampled_from([0, 0, 1, 2, 3, 5, 17, 300])
    else:
        # Trials: a scalar, one per observation, or one per parameter
        n_kind = draw(st.sampled_from(["scalar", "scalar", "obs", "prior"]))
        n_shape = {"scalar": (), "obs": obs_shape, "prior": prior_shape}[n_kind]
        n_el = st.sampled_from([1, 2, 3, 10, 50, 400]) if pair == "beta_binomial" else st.sampled_from([1.0, 2.0, 0.5, 3.7, 10.0, 60.0])
        case["n"] = draw(arr(n_el, n_shape))
        case["n_how"] = draw(st.sampled_from(PASSING + ["python"]))
        y = st.sampled_from([0, 0, 1, 2, 3, 5, 17, 100])
    if draw(st.integers(0, 9)) == 0:
        y = st.just(0)
    case["y"] = draw(arr(y, obs_shape))
    return case


def hyperparam(ins, srng, case, nm, observed):
    val, how = case[nm], case[nm + "_how"]
    if how == "python":
        return val if np.ndim(val) == 0 else np.array(val)
    if how == "observed_rv":
        rv = srng.gamma(2.0, 1.0, size=np.shape(val), name=nm)
        observed[rv] = at.as_tensor(np.array(val))
        return rv
    return ins.give(val, how, nm)


def build(case):
    srng = RandomStream(case["seed"])
    ins = Inputs()
    observed = {}
    alpha = hyperparam(ins, srng, case, "alpha", observed)
    beta = hyperparam(ins, srng, case, "beta", observed)
    pshape, oshape = tuple(case["prior_shape"]), tuple(case["obs_shape"])
    size = pshape if case["explicit_size"] or case["shape_from"] == "size" else None
    prior = srng.gamma if case["pair"] == "gamma_poisson" else srng.beta
    theta = prior(alpha, beta, size=size, name="theta")
    osize = oshape if oshape != pshape or case["explicit_size"] else None
    if case["pair"] == "gamma_poisson":
        Y = srng.poisson(theta, size=osize, name="Y")
    else:
        n = case["n"]
        dt = "int64" if case["pair"] == "beta_binomial" else "float64"
        n = (n if np.ndim(n) == 0 else np.array(n)) if case["n_how"] == "python" else ins.give(n, case["n_how"], "n", dtype=dt)
        dist = srng.binomial if case["pair"] == "beta_binomial" else srng.nbinom
        Y = dist(n, theta, size=osize, name="Y")
    y = observations(case)
    if case["y_how"] == "clone":
        y_vv = ins.add(Y.clone(), y)
    else:
        y_vv = ins.give(y, case["y_how"], "y", dtype="int64")
    observed[Y] = y_vv
    return srng, theta, observed, ins


def observations(case):
    y = np.array(case["y"], dtype="int64").reshape(case["obs_shape"])
    if case["pair"] == "beta_binomial":
        y = np.minimum(y, np.broadcast_to(case["n"], y.shape))
    return y


def posterior(case):
    """The exact posterior's parameters, and those of the listed known finding."""
    y = observations(case)
    pshape = tuple(case["prior_shape"])

    def sum_to_prior(x):
        x = np.broadcast_to(np.asarray(x, float), y.shape)
        x = x.sum(axis=tuple(range(x.ndim - len(pshape))))
        for i, s in enumerate(pshape):
            if s == 1:
                x = x.sum(axis=i, keepdims=True)
        return x

    a = np.broadcast_to(np.array(case["alpha"], float), pshape)
    b = np.broadcast_to(np.array(case["beta"], float), pshape)
    sy = sum_to_prior(y)
    if case["pair"] == "gamma_poisson":
        return ss.gamma(a + sy, scale=1 / (b + sum_to_prior(1))), None
    sn = sum_to_prior(case["n"])
    if case["pair"] == "beta_binomial":
        return ss.beta(a + sy, b + sn - sy), None
    # Aesara's (and numpy's) negative binomial has pmf ~ p^n (1 - p)^y
    return ss.beta(a + sn, b + sy), ss.beta(a + sy, b + sn)


def check(case, ctx):
    with sut("construct and compile the conjugate step"):
        srng, theta, observed, ins = build(case)
        sampler, init = aemcmc.construct_sampler(observed, srng)
        if theta not in sampler.sample_steps:
            raise Violation("no step for the parameter")
        if sampler.parameters:
            raise Violation("the conjugate model isn't given its closed-form posterior step")
        f = fn(ins, sampler.sample_steps[theta], updates=sampler.updates)
    exact, finding = posterior(case)
    pshape = tuple(case["prior_shape"])

    def draws(n):
        with sut("run the conjugate step"):
            out = np.stack([np.asarray(f()) for _ in range(n)])
        if out.shape[1:] != pshape:
            raise Violation(f"draws have shape {out.shape[1:]} instead of {pshape}")
        if not np.all(np.isfinite(out)):
            raise Violation("non-finite draws")
        return out

    cache = {}

    def pvals(dist):
        def g(n, stage):
            if (n, stage) not in cache:
                cache[n, stage] = draws(n)
            u = np.clip(dist.cdf(cache[n, stage]), 0, 1).reshape(n, -1)
            ps = stats.uniformity(u)
            k = u.shape[1]
            if k > 1:
                ps.update(stats.uniformity(u[:, 0], "first:"))
                ps.update(stats.uniformity(u[:, -1], "last:"))
                # Elements are independent a posteriori
                ps.update(stats.uncorrelated(u[:, 0], u[:, -1], "indep"))
            return ps

        return g

    n = 400 if not ctx.thorough else 2000
    msg = stats.decide(pvals(exact), n)
    if msg is None:
        return
    if finding is not None and "D18" in ctx.known:
        cache.clear()
        if stats.decide(pvals(finding), n) is None and stats.decide(pvals(finding), 4 * n) is None:
            ctx.finding("D18", f"the posterior step of a beta-negative-binomial model draws Beta(alpha + sum y, beta + sum k) instead of Beta(alpha + sum k, beta + sum y)")
            return
    raise Violation(f"draws don't follow the exact posterior: {msg}")


def label(case):
    ls = [case["pair"], f"prior_ndim={len(case['prior_shape'])}", "alpha:" + case["alpha_how"], "y:" + case["y_how"]]
    if tuple(case["prior_shape"]) != tuple(case["obs_shape"]):
        ls.append("shared_parameter")
    if any(p == 1 and o > 1 for p, o in zip(case["prior_shape"][::-1], case["obs_shape"][::-1])):
        ls.append("broadcasted_dim")
    if not np.any(case["y"]):
        ls.append("all_zero")
    return ls


SUBS = [
    Sub(
        "posterior",
        cases(),
        check,
        quick=500,
        thorough=6000,
        shards=8,
        label=label,
        nontrivial=lambda c: True,
        rule="a conjugate model (pair x shapes x hyperparameters x passing x data) for which the constructed step was compiled and at least 400 draws were compared with the exact posterior CDF",
    )
]
