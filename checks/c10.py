"""C10: Chinese-restaurant table counts have the exact distribution.

Oracle: the exact distribution of a sum of independent Bernoulli variables with
probabilities h / (h + i), i = 0..y-1, by dynamic programming.
"""
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

import aemcmc.gibbs as gibbs
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds
from vf.core import Sub, Violation, sut

ASSUMPTIONS = ["counts up to 1500, concentrations in [1e-6, 1e6]", "counts are 32 or 64 bit integers"]


@lru_cache(maxsize=4096)
def crt_pmf(y: int, h: float) -> np.ndarray:
    p = np.zeros(y + 1)
    p[0] = 1.0
    for i in range(y):
        q = h / (h + i)
        p[1 : i + 2] = p[1 : i + 2] * (1 - q) + p[0 : i + 1] * q
        p[0] *= 1 - q
    return p


@st.composite
def cases(draw, y_hows, h_hows):
    shape = draw(st.sampled_from([(5,), (), (1,), (2,), (5,), (3, 2), (2, 1, 3)]))
    el = st.one_of(
        st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5, 7]),
        st.integers(0, 40),
        st.sampled_from([0, 3, 20, 100, 250]),
    )
    y = draw(arr(el, shape))
    if shape and draw(st.integers(0, 7)) == 7:
        # One large count among the others
        i = y
        for _ in shape[1:]:
            i = i[-1]
        i[0] = draw(st.sampled_from([1500, 600]))
    return dict(
        y=y,
        shape=shape,
        h=draw(st.one_of(st.sampled_from([1.0, 0.5, 2.0]), logu(1e-3, 1e3), logu(1e-6, 1e6))),
        y_how=draw(st.sampled_from(y_hows)),
        h_how=draw(st.sampled_from(h_hows)),
        seed=draw(seeds),
    )


CACHE = {}


def build(case, y):
    h = case["h"]
    if case["y_how"] in ("int64", "int32") and case["h_how"] == "input":
        # Inputs of unknown shape: compiled once per process
        key = case["y_how"], y.ndim
        if key not in CACHE:
            srng = RandomStream(case["seed"])
            yv, hv = at.TensorType(key[0], (None,) * y.ndim)("y"), at.dscalar("h")
            out, updates = gibbs.sample_CRT(srng, yv, hv)
            CACHE[key] = srng, aesara.function([yv, hv], out, updates=updates)
        srng, f = CACHE[key]
        srng.seed(case["seed"])
        y = y.astype(case["y_how"])
        return lambda: f(y, h)

    srng = RandomStream(case["seed"])
    ins = Inputs()
    if case["y_how"] == "expr":
        yv = ins.give(y, "input", "y", dtype="int64", static=False) + 0
    else:
        yv = ins.give(y, case["y_how"], "y", dtype="int64")
    out, updates = gibbs.sample_CRT(srng, yv, ins.give(h, case["h_how"], "h"))
    return fn(ins, out, updates=updates)


def check(case, ctx):
    y = np.array(case["y"], dtype="int64").reshape(case["shape"])
    h = case["h"]
    with sut("build the sampler"):
        f = build(case, y)

    pmfs = [crt_pmf(int(v), h) for v in y.ravel()]
    cdfs = [np.cumsum(p) for p in pmfs]

    def pv(n, stage):
        with sut("draw"):
            draws = np.stack([np.asarray(f()) for _ in range(n)])
        if draws.shape[1:] != y.shape:
            raise Violation(f"table counts have shape {draws.shape[1:]} instead of {y.shape}")
        if np.any(draws != np.round(draws)):
            raise Violation("table counts must be integers")
        bad = (draws < (y > 0)) | (draws > y)
        if np.any(bad):
            raise Violation(f"table counts outside of their support: {draws[bad][:3]} for counts {np.broadcast_to(y, draws.shape)[bad][:3]}")
        d = draws.reshape(n, -1).astype(int)
        # Randomized probability transform (deterministic given the case)
        v = np.random.default_rng([case["seed"], stage]).random(d.shape)
        u = np.empty(d.shape)
        for j, (p, c) in enumerate(zip(pmfs, cdfs)):
            u[:, j] = c[d[:, j]] - v[:, j] * p[d[:, j]]
        u = np.clip(u, 0, 1)
        ps = stats.uniformity(u)
        live = [j for j, p in enumerate(pmfs) if p.max() < 0.999]
        if live:
            i, k = live[0], live[-1]
            ps.update(stats.uniformity(u[:, i], "first:"))
            ps.update(stats.uncorrelated(u[1:, i], u[:-1, i], "serial"))
            ps.update(stats.chisq(np.bincount(d[:, i], minlength=len(pmfs[i])), pmfs[i], "chisq"))
            if k != i:
                ps.update(stats.uniformity(u[:, k], "last:"))
                ps.update(stats.uncorrelated(u[:, i], u[:, k], "indep"))
                ps.update(stats.uncorrelated(u[1:, i], u[:-1, k], "serial2"))
        return ps

    msg = stats.decide(pv, (300 if y.sum() < 1000 else 150) * (5 if ctx.thorough else 1))
    if msg:
        raise Violation(f"table counts don't follow CRT(y, h): {msg}")


def label(c):
    y = np.ravel(c["y"])
    return ["ndim=%d" % len(c["shape"]), "y:" + c["y_how"]] + ["has 0"] * bool(np.any(y == 0)) + ["has 1"] * bool(np.any(y == 1)) + ["y>=100"] * bool(np.any(y >= 100)) + ["all zero"] * bool(np.all(y == 0))


SUBS = [
    Sub(
        "distribution",
        cases(["int64", "int64", "int32"], ["input"]),
        check,
        quick=150,
        thorough=4000,
        shards=8,
        label=label,
        nontrivial=lambda c: bool(np.any(np.ravel(c["y"]) > 1)),
        rule="counts (any shape) with at least one above one x concentration; at least 150 draws compared with the exact distribution",
    ),
    Sub(
        "passing",
        cases(PASSING, PASSING),
        check,
        quick=40,
        thorough=600,
        shards=8,
        weight=2.0,
        label=label,
        nontrivial=lambda c: bool(np.any(np.ravel(c["y"]) > 1)),
        rule="as distribution, with the arguments given as constants, shared variables, inputs of known broadcast pattern or expressions",
    ),
]
