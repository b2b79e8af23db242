"""C04: the negative-binomial dispersion step is exact.

Oracles: (kernel) the exact distribution of the step's result given the current
dispersion, a mixture of gamma distributions over the exact distribution of the
total number of tables; (invariance) the posterior of the dispersion on a grid.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from scipy.special import gammaln

import aemcmc.gibbs as gibbs
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from checks.c10 import crt_pmf
from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds
from vf.core import Skip, Sub, Violation, sut

ASSUMPTIONS = [
    "one dispersion parameter and one probability per observation, 1-12 observations, counts up to 300",
    "shapes in [0.03, 500], scales in [1e-3, 1e4], current values in [1e-5, 1e5], probabilities in [1e-6, 1 - 1e-9]",
]


@st.composite
def cases(draw, hows):
    n = draw(st.sampled_from([4, 1, 2, 3, 7, 12]))
    y = st.sampled_from([0, 0, 1, 1, 2, 3, 5, 9] + ([30, 120, 300] if draw(st.integers(0, 3)) == 3 else []))
    if draw(st.integers(0, 6)) == 6:
        y = st.just(0)
    mild = st.one_of(st.integers(1, 19).map(lambda k: k / 20), st.sampled_from([0.001, 0.995, 0.9]))
    p = mild
    if draw(st.integers(0, 3)) == 3:  # probabilities very close to zero or to one
        p = st.one_of(mild, st.sampled_from([1 - 1e-3, 1 - 1e-6, 1 - 1e-9, 1e-6]), logu(1e-9, 1e-2).map(lambda q: 1 - q))
    case = dict(
        y=draw(arr(y, (n,))),
        p=draw(arr(p, (n,))),
        a=draw(st.one_of(logu(0.1, 30), logu(0.1, 30), logu(0.03, 500))),
        b=draw(st.one_of(logu(0.1, 30), logu(0.1, 30), logu(1e-3, 1e4))),
        h=draw(st.lists(st.one_of(st.just(1.0), logu(0.01, 100), logu(1e-5, 1e5)), min_size=1, max_size=3)),
        seed=draw(seeds),
    )
    if hows:
        case.update({k + "_how": draw(st.sampled_from(hows)) for k in "ypab"})
    return case


CACHE = {}


def build(case):
    """A function of the current dispersion."""
    y, p = np.array(case["y"], dtype="int64"), np.array(case["p"])
    if "y_how" not in case:
        if not CACHE:
            srng = RandomStream(0)
            args = at.dscalar("h"), at.dvector("p"), at.dscalar("a"), at.dscalar("b"), at.lvector("y")
            out, updates = gibbs.nbinom_dispersion_posterior(srng, *args)
            CACHE["f"] = srng, aesara.function(args, out, updates=updates)
        srng, f = CACHE["f"]
        srng.seed(case["seed"])
        return lambda h: f(h, p, case["a"], case["b"], y)
    srng = RandomStream(case["seed"])
    ins = Inputs()
    h = at.dscalar("h")
    args = [ins.give(v, case[k + "_how"], k, dtype=str(np.asarray(v).dtype)) for k, v in (("p", p), ("a", case["a"]), ("b", case["b"]), ("y", y))]
    out, updates = gibbs.nbinom_dispersion_posterior(srng, h, *args)
    return fn(ins, out, [h], updates=updates)


def kernel_cdf(case, h):
    pmf = np.ones(1)
    for y in case["y"]:
        pmf = np.convolve(pmf, crt_pmf(int(y), h))
    rate = 1 / case["b"] - np.log1p(-np.array(case["p"])).sum()
    keep = np.flatnonzero(pmf > 1e-13)

    def cdf(x):
        x = np.asarray(x)
        if len(keep) * x.size > 3e6:  # thorough runs with large counts
            return sum(pmf[l] * ss.gamma.cdf(x, case["a"] + l, scale=1 / rate) for l in keep)
        return ss.gamma.cdf(x[:, None], case["a"] + keep, scale=1 / rate) @ pmf[keep]

    return cdf


def check_kernel(case, ctx):
    with sut("build the step"):
        step = build(case)
    hs = case["h"]
    cdfs = [kernel_cdf(case, h) for h in hs]

    def pv(n, stage):
        m = n // len(hs)
        with sut("take a step"):
            out = np.array([[np.asarray(step(h)) for h in hs] for _ in range(m)])
        if out.shape != (m, len(hs)):
            raise Violation(f"the step's result has shape {out.shape[2:]} instead of ()")
        if not np.all(np.isfinite(out)) or np.any(out < 0):
            raise Violation("the dispersion isn't a non-negative finite number")
        u = np.stack([np.clip(c(out[:, j]), 0, 1) for j, c in enumerate(cdfs)], 1)
        ps = stats.uniformity(u)
        ps.update(stats.uniformity(u[:, 0], "first:"))
        ps.update(stats.uncorrelated(u.ravel()[1:], u.ravel()[:-1], "serial"))
        return ps

    msg = stats.decide(pv, 400 if not ctx.thorough else 2000)
    if msg:
        raise Violation(f"the step doesn't draw from its exact conditional: {msg}")


def grid_posterior(case):
    g = np.exp(np.linspace(np.log(1e-6), np.log(1e4), 40001))
    y = np.array(case["y"])
    lp = case["a"] * np.log(g) - g / case["b"] + g * np.log1p(-np.array(case["p"])).sum()
    for v in y:
        lp = lp + gammaln(v + g) - gammaln(g)
    w = np.exp(lp - lp.max())
    c = np.cumsum(0.5 * (w[1:] + w[:-1]))
    return np.log(g), np.concatenate([[0.0], c / c[-1]])


def check_invariance(case, ctx):
    lg, c = grid_posterior(case)
    if c[100] > 1e-6 or c[-100] < 1 - 1e-9:
        raise Skip  # too much mass next to zero for the grid (tiny shape parameters)
    with sut("build the step"):
        step = build(case)
    rng = np.random.default_rng([case["seed"], 4])

    def pv(n, stage):
        u0 = rng.random(n)
        h = np.exp(np.interp(u0, c, lg))
        out = np.empty(n)
        with sut("take a step"):
            for i, v in enumerate(h):
                for _ in range(3):
                    v = np.asarray(step(v))
                out[i] = v
        u = np.interp(np.log(out), lg, c)
        ps = stats.uniformity(u)
        ps.update(stats.paired_means(np.stack([u, (u - 0.5) ** 2], 1), np.stack([u0, (u0 - 0.5) ** 2], 1), ["mean", "spread"], "paired-"))
        return ps

    msg = stats.decide(pv, 250 if not ctx.thorough else 1500)
    if msg:
        raise Violation(f"the step doesn't leave the posterior of the dispersion invariant: {msg}")


def label(c):
    ls = ["n=%d" % len(c["y"])]
    if not any(c["y"]):
        ls.append("all zero")
    if max(c["y"]) >= 30:
        ls.append("large counts")
    if max(c["p"]) > 0.98:
        ls.append("extreme p")
    if c["a"] < 0.5:
        ls.append("small shape")
    return ls + [f"{k}:{v}" for k, v in c.items() if k.endswith("_how")]


def nontrivial(c):
    return any(v > 1 for v in c["y"])


SUBS = [
    Sub(
        "kernel",
        cases(None),
        check_kernel,
        quick=80,
        thorough=3000,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="kernel: a count above one; 400 results pushed through the exact conditional distribution function",
    ),
    Sub(
        "passing",
        cases(PASSING),
        check_kernel,
        quick=32,
        thorough=600,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="passing: as kernel, with arguments given as constants, shared variables, inputs or expressions",
    ),
    Sub(
        "invariance",
        cases(None),
        check_invariance,
        quick=32,
        thorough=1000,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="invariance: a count above one; 250 exact posterior draws moved by three steps and pushed through the posterior's distribution function",
    ),
]
