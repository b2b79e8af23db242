"""C06: a constructed sampler's iteration leaves the model's posterior invariant.

Oracle: the model itself.  (theta, y) drawn from the model and theta' obtained
from theta by iterations of the sampler given y: (theta', y) must have the same
joint distribution as (theta, y) (Geweke's joint distribution test).

`conditioning`: by substitution, with the generators in fixed states, the results of
each kernel must not depend on the old values of variables updated before it, nor on
the new values of those updated after it.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

from checks.c10 import crt_pmf
from vf import stats
from vf.build import seeds
from vf.composed import BLOCKS, any_models, label, models
from vf.core import Skip, Sub, Violation, sut
from vf.posterior import rank_in  # noqa: F401
from vf.run_sampler import Built
from vf.scan import scan_order

ASSUMPTIONS = [
    "aehmc's NUTS kernel is replaced by a random-walk Metropolis kernel on the log-density that aemcmc builds (C12 runs the real kernel)",
    "counts up to 100; models without the configurations of the known findings D4 (the dispersion step is checked on its own here) and D18",
]

KINDS = ["hyper_pos", "hyper_real", "gp", "bb", "bern", "nb", "normal", "uniform", "shared", "simplex"]


@st.composite
def cases(draw):
    return dict(blocks=draw(models(kinds=KINDS)), seed=draw(seeds))


def elements(theta, n_max=3):
    """Named scalar elements of a collection of variables."""
    res = {}
    for k, v in theta.items():
        v = np.asarray(v, float).ravel()
        for i in range(min(len(v), n_max)):
            res[f"{k}[{i}]"] = v[i]
    return res


def summaries(y):
    res = {}
    for k, v in y.items():
        v = np.asarray(v, float).ravel()
        res[f"{k}.mean"] = v.mean()
        if len(v) > 1:
            res[f"{k}[0]"] = v[0]
    return res


def joint_draws(b, draw, n):
    """Draws of (theta, y) given that y is in the domain (whatever theta)."""
    out, tried = [], 0
    while len(out) < n:
        tried += 1
        if tried > 20 * n + 200:
            raise Skip
        try:
            d = draw()
        except ValueError:
            continue  # invalid parameters of observed variables after overflow
        y = {k: d[k] for k in b.model.observed}
        if any(np.max(y[k]) > 100 or np.min(y[k]) < 0 for k in b.model.counts):
            continue
        if any(not np.all(np.abs(v) < 1e6) for v in y.values()):
            continue
        out.append(({k: d[k] for k in b.latents}, y))
    return out


def pairs(b, draw, n, k, ctx):
    t0, t1, ys, failed = [], [], [], 0
    for theta, y in joint_draws(b, draw, n):
        cur, its = theta, []
        for _ in range(k):
            extreme = any(np.any(np.abs(v) > 1e6) or (b.model.support[q] != "real" and np.any(np.abs(v) < 2e-3)) for q, v in cur.items())
            try:
                new = b.step(cur, y)
            except Exception as e:  # noqa: BLE001
                # aeppl rejects parameter values at the edge of their domain,
                # e.g. probabilities that are one in double precision
                if not extreme and type(e).__name__ != "ParameterValueError":
                    raise Violation(f"a step raised {type(e).__name__}: {str(e)[:300]} at {cur}") from e
                failed += 1
                new = cur
            for q, v in new.items():
                if np.shape(v) != np.shape(cur[q]):
                    raise Violation(f"the step of {q} changed its shape from {np.shape(cur[q])} to {np.shape(v)}")
            if any(not np.all(np.isfinite(v)) for v in new.values()):
                if not extreme:
                    raise Violation(f"non-finite step result {new} from {cur} given {y}")
                failed += 1
                new = cur
            cur = new
            its.append(elements(cur))
        t0.append(elements(theta))
        t1.append(its)
        ys.append(summaries(y))
    if failed > 0.02 * n * k:
        raise Skip
    ctx.counters["iterations"] += n * k
    return t0, t1, ys


def functional_means(names, ref, qn, rows, ys):
    """Bounded functionals of one state per row: ranks, their squares and products."""
    r = np.stack([rank_in(ref[nm], np.array([t[nm] for t in rows])) - 0.5 for nm in names], 1)
    cols, labels = [], []
    for i, nm in enumerate(names):
        cols.append(r[:, i])
        labels.append(nm)
        cols.append(r[:, i] ** 2)
        labels.append(nm + "^2")
        for j in range(i):
            cols.append(r[:, i] * r[:, j])
            labels.append(f"{nm}*{names[j]}")
        for j, q in enumerate(qn):
            cols.append(r[:, i] * ys[:, j])
            labels.append(f"{nm}*{q}")
    return np.stack(cols, 1), labels


def check(case, ctx):
    with sut("build the sampler"):
        b = Built(case["blocks"], case["seed"], hold=[])
        if b.model.gamma_h:
            b.hold = [h for h in b.model.gamma_h if h in b.steps]
            b.compile()
    draw = b.model.prior_function()

    def pvals(n, stage):
        t0, t1, ys = pairs(b, draw, n, 2, ctx)
        names = [nm for nm in t0[0] if nm.split("[")[0] not in b.hold]
        if not names:
            raise Skip
        ref = {nm: np.sort([t[nm] for t in t0]) for nm in names}
        qn = list(ys[0])
        q = np.stack([rank_in(np.sort([y[k] for y in ys]), np.array([y[k] for y in ys])) - 0.5 for k in qn], 1)
        a, labels = functional_means(names, ref, qn, t0, q)
        k = len(t1[0])
        c = sum(functional_means(names, ref, qn, [t[i] for t in t1], q)[0] for i in range(k)) / k
        return stats.paired_means(c, a, labels)

    msg = stats.decide(pvals, 240)
    if msg:
        raise Violation(f"one iteration changes the joint distribution of the variables and data: {msg}")


# What each step conditions on


@st.composite
def scan_cases(draw):
    return dict(blocks=draw(any_models()), seed=draw(seeds))


def scan_check(case, ctx):
    b = Built(case["blocks"], case["seed"], compile_it=False)
    for _ in scan_order(b, case["seed"], ctx):
        pass


# The dispersion step of constructed samplers, on its own


@st.composite
def dispersion_cases(draw):
    b = dict(
        kind="nb",
        n=draw(st.sampled_from([4, 2, 1, 7])),
        p=draw(st.sampled_from([1, 2, 3])),
        xseed=draw(st.integers(0, 9999)),
        X_how=draw(st.sampled_from(["const", "input", "shared", "expr"])),
        scale=draw(st.sampled_from(["par", "vector", "rv_vector"])),
        par=dict(how="const", val=draw(st.sampled_from([0.5, 1.0, 2.0]))),
        h="gamma",
        hpar=dict(how=draw(st.sampled_from(["const", "input", "shared", "expr"])), val=draw(st.sampled_from([0.5, 1.0, 2.0, 3.5]))),
        hpar2=dict(how=draw(st.sampled_from(["const", "input", "shared", "expr"])), val=draw(st.sampled_from([0.5, 1.0, 2.0, 3.5]))),
    )
    return dict(
        blocks=[b],
        y=draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 5, 12, 40]), min_size=b["n"], max_size=b["n"])),
        h=draw(st.sampled_from([1.0, 0.2, 0.7, 3.0, 15.0])),
        beta=draw(st.lists(st.sampled_from([0.0, -1.0, 0.5, 2.0]), min_size=b["p"], max_size=b["p"])),
        hold_beta=draw(st.booleans()),
        seed=draw(seeds),
    )


def dispersion_check(case, ctx):
    (blk,) = case["blocks"]
    with sut("build the sampler"):
        b = Built(case["blocks"], case["seed"])
    if b.params and "h0" in b.nuts:
        # Only a specialised step has the form that is checked here
        raise Skip
    X = b.model.regressions["beta0"]
    y = {"Y0": np.array(case["y"])}
    theta = {"h0": np.array(case["h"]), "beta0": np.array(case["beta"]), "s0": np.ones(blk["p"])}
    theta = {k: theta[k] for k in b.inits}
    order = list(b.sampler.sample_steps.values())
    h_first = order.index(b.steps["h0"]) < order.index(b.steps["beta0"])
    pmf = np.ones(1)
    for v in case["y"]:
        pmf = np.convolve(pmf, crt_pmf(int(v), case["h"]))
    tables = np.arange(len(pmf))
    a, rate0 = blk["hpar"]["val"], blk["hpar2"]["val"]

    def pit(zs, hs, sign):
        rate = rate0 + np.logaddexp(0, sign * zs).sum(1)
        return (pmf * ss.gamma.cdf(hs[:, None], a + tables, scale=1 / rate[:, None])).sum(1)

    def draws(n):
        hs, zs = [], []
        for _ in range(n):
            r = b.step(theta, y)
            hs.append(float(r["h0"]))
            zs.append(X @ (theta["beta0"] if h_first else r["beta0"]))
        hs, zs = np.array(hs), np.array(zs)
        if not (np.all(np.isfinite(hs)) and np.all(hs >= 0)):
            raise Violation(f"invalid dispersion values {hs[~(hs >= 0)][:5]}")
        return hs, zs

    def pvals(hs, zs, sign):
        u = pit(zs, hs, sign)
        v = stats_rank(u)
        return {**stats.uniformity(u), **stats.uncorrelated(v[:-1], v[1:], "lag1"), **stats.uncorrelated(v, stats_rank(zs[:, 0]), "beta")}

    # P(y_i | h) ~ p_i^h, with p_i = sigmoid(-x_i beta): sign 1
    signs = [1] + [-1] * ("D4" in ctx.known)
    msg = {}
    for stage, n, level in ((0, 500, stats.A1), (1, 2000, stats.A2)):
        hs, zs = draws(n)
        for sign in signs:
            ps = pvals(hs, zs, sign)
            bad = {k: p for k, p in ps.items() if p < level / (len(ps) if stage == 0 else 1)}
            if not bad:
                if sign == -1:
                    ctx.finding("D4", "the dispersion step of a sampler for a negative-binomial regression uses -sum log(1 - p) in place of -sum log(p), where p is the model's success probability")
                return
            msg[sign] = bad
    raise Violation(f"the dispersion step doesn't follow its exact conditional distribution: {msg[1]}")


def stats_rank(x):
    if np.ptp(x) == 0:
        return np.full(len(x), 0.5)
    return (ss.rankdata(x) - 0.5) / len(x)


SUBS = [
    Sub(
        "joint",
        cases(),
        check,
        quick=64,
        thorough=900,
        shards=8,
        label=lambda c: label(c["blocks"]),
        nontrivial=lambda c: True,
        rule="a generated model (1-3 blocks, with dependencies) whose sampler was compiled and run on at least 240 joint draws of parameters and data",
        shrink=25,
    ),
    Sub(
        "conditioning",
        scan_cases(),
        scan_check,
        quick=40,
        thorough=600,
        shards=8,
        label=lambda c: label(c["blocks"]),
        nontrivial=lambda c: len(c["blocks"]) > 1,
        rule="a generated model of several blocks; for each kernel, its results with old and new values of each other variable exchanged",
        shrink=25,
    ),
    Sub(
        "dispersion",
        dispersion_cases(),
        dispersion_check,
        quick=16,
        thorough=160,
        shards=2,
        label=lambda c: ["scale=" + c["blocks"][0]["scale"], "all zero" if not any(c["y"]) else "some counts"],
        rule="a negative-binomial regression with a gamma dispersion whose constructed dispersion step was compared with its exact conditional distribution",
    ),
]
