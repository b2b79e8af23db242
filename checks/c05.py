"""C05: the horseshoe shrinkage step leaves its posterior invariant.

Oracle: the exact joint posterior of the scales given the coefficients.  With
c_j = beta_j^2 / (2 tau^2 sigma^2) and S(x) = exp(x) E1(x),

  p(tau | beta)  ~  1 / (1 + tau^2) prod_j S(c_j) / tau      (on a grid)
  P(1 / lambda_j^2 > t | tau, beta) = exp(-c_j t) S(c_j (1 + t)) / S(c_j)

so that exact draws can be made, and any (lambda, tau) can be transformed into
variables that must be independent and uniform.
"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import hyperu

import aemcmc
import aemcmc.gibbs as gibbs
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds
from vf.core import Skip, Sub, Violation, sut

ASSUMPTIONS = [
    "1-6 non-zero coefficients with absolute values in [1e-3, 100], noise variances in [0.05, 20]",
]
LT = np.linspace(np.log(1e-9), np.log(1e9), 24001)


def log_S(x):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        small = x < 1e-280
        big = x > 1e6
        v = np.where(big, 1 / (x + 1), hyperu(1.0, 1.0, np.clip(x, 1e-280, 1e6)))
        return np.log(np.where(small, hyperu(1.0, 1.0, 1e-280), v))


class Exact:
    def __init__(self, beta, sigma2):
        self.b2 = np.asarray(beta, float) ** 2 / (2 * sigma2)
        lt = LT
        c = self.b2[None, :] * np.exp(-2 * lt)[:, None]
        # density of log(tau)
        lp = lt - np.logaddexp(0, 2 * lt) + (log_S(c) - lt[:, None]).sum(1)
        w = np.exp(lp - lp.max())
        cum = np.cumsum(0.5 * (w[1:] + w[:-1]))
        self.cdf = np.concatenate([[0.0], cum / cum[-1]])
        if self.cdf[50] > 1e-7 or self.cdf[-50] < 1 - 1e-7:
            raise Skip

    def log_sf(self, c, t):
        return -c * t + log_S(c * (1 + t)) - log_S(c)

    def transform(self, lam, tau):
        """(n, p) and (n,) positive values to (n, p + 1) uniforms."""
        ut = np.interp(np.log(tau), LT, self.cdf)
        c = self.b2 / tau[:, None] ** 2
        ul = np.exp(np.minimum(self.log_sf(c, lam**-2.0), 0))
        return np.column_stack([ut, ul])

    def draw(self, n, rng):
        u = rng.random((n, len(self.b2) + 1))
        tau = np.exp(np.interp(u[:, 0], self.cdf, LT))
        c = self.b2 / tau[:, None] ** 2
        lo, hi = np.full(c.shape, -60.0), np.full(c.shape, 60.0)  # log t
        goal = np.log(u[:, 1:])
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            above = self.log_sf(c, np.exp(mid)) > goal  # t too small
            lo, hi = np.where(above, mid, lo), np.where(above, hi, mid)
        lam = np.exp(-0.25 * (lo + hi))
        return lam, tau


@st.composite
def coefficients(draw):
    p = draw(st.sampled_from([3, 1, 2, 4, 6]))
    mag = draw(st.sampled_from(["unit", "mixed", "tiny", "large"]))
    el = {"unit": logu(0.1, 5), "mixed": logu(1e-3, 100), "tiny": logu(1e-3, 0.05), "large": logu(5, 100)}[mag]
    return draw(arr(st.tuples(el, st.booleans()).map(lambda t: t[0] * (-1 if t[1] else 1)), (p,)))


@st.composite
def function_cases(draw):
    return dict(
        beta=draw(coefficients()),
        sigma2=draw(st.one_of(st.just(1.0), logu(0.05, 20))),
        k=draw(st.sampled_from([1, 1, 3])),
        # Shapes of the global parameter
        tau_ndim=draw(st.sampled_from([0, 0, 1])),
        seed=draw(seeds),
    )


CACHE = {}


def step_function(case):
    key = case["tau_ndim"]
    if key not in CACHE:
        srng = RandomStream(0)
        beta, s2, lam = at.dvector("beta"), at.dscalar("sigma2"), at.dvector("lambda")
        tau = at.tensor("float64", shape=(1,) * key, name="tau")
        outs = gibbs.horseshoe_posterior(srng, beta, s2, lam**2, tau**2)
        CACHE[key] = srng, aesara.function([beta, s2, lam, tau], list(outs))
    srng, f = CACHE[key]
    srng.seed(case["seed"])
    beta = np.array(case["beta"])

    def step(lam, tau):
        lam, tau = f(beta, case["sigma2"], lam, np.full((1,) * key, tau))
        return lam, tau

    return step


@st.composite
def sampler_cases(draw):
    return dict(
        beta=draw(coefficients()),
        k=draw(st.sampled_from([1, 3])),
        tau_shape=draw(st.sampled_from([None, None, (1,), "param1"])),
        order=draw(st.sampled_from(["lambda*tau", "tau*lambda"])),
        declared=draw(st.sampled_from(["lambda first", "tau first"])),
        size=draw(st.sampled_from(["explicit", "implicit"])),
        b_how=draw(st.sampled_from(["clone", "const", "shared", "input"])),
        zeros=draw(st.sampled_from(["scalar", "scalar", "array"])),
        seed=draw(seeds),
    )


def sampler_step(case):
    srng = RandomStream(case["seed"])
    ins = Inputs()
    b = np.array(case["beta"])
    p = len(b)

    def mk_tau():
        if case["tau_shape"] == "param1":
            return srng.halfcauchy(np.zeros(1), np.ones(1), name="tau")
        return srng.halfcauchy(0, 1, size=case["tau_shape"], name="tau")

    def mk_lam():
        z = np.zeros(p) if case["zeros"] == "array" else 0
        return srng.halfcauchy(z, 1, size=p, name="lambda")

    if case["declared"] == "lambda first":
        lam = mk_lam()
        tau = mk_tau()
    else:
        tau = mk_tau()
        lam = mk_lam()
    sd = lam * tau if case["order"] == "lambda*tau" else tau * lam
    z = np.zeros(p) if case["zeros"] == "array" else 0
    beta = srng.normal(z, sd, size=p if case["size"] == "explicit" else None, name="beta")
    if case["b_how"] == "clone":
        vv = ins.add(beta.clone(), b)
    elif case["b_how"] == "input":
        vv = ins.add(at.dvector("b"), b)
    elif case["b_how"] == "shared":
        vv = aesara.shared(b, name="b")
    else:
        vv = at.as_tensor(b)
    sampler, init = aemcmc.construct_sampler({beta: vv}, srng)
    if sampler.parameters:
        if p == 1:
            # The local parameter isn't a vector for sure: left to NUTS
            raise Skip
        raise Violation("the horseshoe prior isn't given its Gibbs step")
    f = fn(ins, [sampler.sample_steps[lam], sampler.sample_steps[tau]], [init[lam], init[tau]], updates=sampler.updates)
    shape = tau.type.ndim

    def step(l, t):
        return f(l, np.full((1,) * shape, t))

    return step


def run_chain(step, lam, tau, k, p, tau_shape=None):
    n = len(tau)
    L, T = np.empty((n, p)), np.empty(n)
    with sut("take a step"):
        for i in range(n):
            l, t = lam[i], tau[i]
            for _ in range(k):
                l, t = step(l, t)
                l, t = np.asarray(l), np.asarray(t)
                if l.shape != (p,) or t.size != 1 or t.ndim > 1:
                    raise Violation(f"the new scales have shapes {l.shape} and {t.shape}")
                t = t.item()
            L[i], T[i] = l, t
    if not (np.all(L > 0) and np.all(T > 0) and np.all(np.isfinite(L)) and np.all(np.isfinite(T))):
        raise Violation("the new scales aren't positive and finite")
    return L, T


def pvalues(u):
    ps = stats.uniformity(u)
    d = u.shape[1]
    for j in range(d):
        ps.update(stats.uniformity(u[:, j], "tau:" if j == 0 else f"lambda{j - 1}:"))
        for i in range(j):
            ps.update(stats.uncorrelated(u[:, i], u[:, j], f"dep{i}{j}"))
    return ps


def check_invariance(case, ctx, step):
    exact = Exact(case["beta"], case.get("sigma2", 1.0))
    rng = np.random.default_rng([case["seed"], 5])
    p = len(case["beta"])

    def pv(n, stage):
        lam, tau = exact.draw(n, rng)
        u0 = exact.transform(lam, tau)
        L, T = run_chain(step, lam, tau, case["k"], p)
        u = exact.transform(L, T)
        ps = pvalues(u)
        for j in range(p + 1):
            # (Not independent of the start, which makes this more sensitive)
            a, b = (np.stack([v[:, j], (v[:, j] - 0.5) ** 2], 1) for v in (u, u0))
            ps.update(stats.paired_means(a, b, ["mean", "spread"], f"paired{j}-"))
        # Other directions: sizes of the effective scales
        e0, e1 = lam * tau[:, None], L * T[:, None]
        r = np.sort(e0, axis=0)
        for j in range(p):
            ra, rb = (np.searchsorted(r[:, j], e[:, j]) / n for e in (e1, e0))
            ps.update(stats.paired_means(ra[:, None], rb[:, None], ["mean"], f"scale{j}-"))
        return ps

    msg = stats.decide(pv, 500 if not ctx.thorough else 2500)
    if msg:
        raise Violation(f"the step doesn't leave the posterior of the scales invariant: {msg}")


def check_function(case, ctx):
    with sut("build the step"):
        step = step_function(case)
    check_invariance(case, ctx, step)


def check_sampler(case, ctx):
    with sut("construct and compile the sampler"):
        step = sampler_step(case)
    check_invariance(case, ctx, step)


@st.composite
def convergence_cases(draw):
    case = draw(function_cases())
    case["beta"] = draw(st.lists(logu(0.1, 10), min_size=1, max_size=3))
    case["log10_tau"] = draw(st.sampled_from([-2, 0, 3]))
    case["log10_lam"] = draw(st.sampled_from([-2, 0, 3]))
    return case


def check_convergence(case, ctx):
    exact = Exact(case["beta"], case["sigma2"])
    p = len(case["beta"])
    with sut("build the step"):
        step = step_function(case)

    def pv(n, stage):
        L, T = run_chain(step, np.full((n, p), 10.0 ** case["log10_lam"]), np.full(n, 10.0 ** case["log10_tau"]), 150, p)
        return pvalues(exact.transform(L, T))

    msg = stats.decide(pv, 60)
    if msg:
        raise Violation(f"150 steps don't reach the posterior: {msg}")


def label(c):
    b = np.abs(c["beta"])
    ls = ["p=%d" % len(b)] + [f"{k}={c[k]}" for k in ("k", "tau_ndim", "tau_shape", "order", "declared", "size", "b_how", "zeros") if k in c]
    if b.min() < 0.01:
        ls.append("tiny coefficient")
    if b.max() > 20:
        ls.append("large coefficient")
    return ls


def nontrivial(c):
    return len(c["beta"]) > 1


SUBS = [
    Sub(
        "function",
        function_cases(),
        check_function,
        quick=80,
        thorough=3000,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="function: at least two coefficients; 500 exact posterior draws moved by one or three steps, then transformed into independent uniforms",
    ),
    Sub(
        "sampler",
        sampler_cases(),
        check_sampler,
        quick=40,
        thorough=800,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="sampler: as function, for the steps made by construct_sampler for generated horseshoe models with observed coefficients",
    ),
    Sub(
        "convergence",
        convergence_cases(),
        check_convergence,
        quick=8,
        thorough=200,
        shards=8,
        weight=2.0,
        label=label,
        nontrivial=nontrivial,
        rule="convergence: 60 chains of 150 steps from scales between 0.01 and 1000",
    ),
]
