"""C03: the negative-binomial regression coefficient step is exact.

Oracle: as C02, with the posterior proportional to
prod p_i^h (1 - p_i)^{y_i} N(beta; 0, scale^2), p = sigmoid(-X beta).
"""
import numpy as np
from hypothesis import strategies as st

import aemcmc
import aemcmc.gibbs as gibbs
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from checks.c02 import design, nontrivial, prior
from vf import regress
from vf.build import PASSING, Inputs, fn
from vf.core import Sub, Violation, sut

ASSUMPTIONS = [
    "at most 9 observations and 4 coefficients, counts up to 300, dispersions in [0.005, 2000], linear predictors within 18 of zero, up to units of 1e-5 to 1e5 of each covariate (see the finding D22 of C09)",
]
KIND = "nbinom"
CACHE = {}


@st.composite
def function_cases(draw):
    case = draw(regress.regression(KIND))
    # The dispersion can be given per observation
    case["h_shape"] = draw(st.sampled_from(["scalar", "scalar", "vector"]))
    if case["h_shape"] == "vector":
        el = st.sampled_from([case["h"], case["h"] * 2, 0.7, 3.0])
        case["h"] = draw(st.lists(el, min_size=len(case["y"]), max_size=len(case["y"])))
    return case


def normalized(case):
    return dict(case, h=np.array(case["h"], float))


def step_function(case):
    X, y, _ = regress.unpack(case)
    s, h = np.array(case["scale"], float), np.array(case["h"], float)
    key = (s.ndim, s.shape == (1,), h.ndim)
    if key not in CACHE:
        srng = RandomStream(0)
        beta, Xv, yv = at.vector("beta"), at.matrix("X"), at.lvector("y")
        hv = at.tensor("float64", shape=(None,) * h.ndim, name="h")
        sv = at.tensor("float64", shape=(1,) if key[1] else (None,) * s.ndim, name="s")
        out = gibbs.nbinom_normal_posterior(srng, beta, sv, Xv, hv, yv)
        CACHE[key] = srng, aesara.function([beta, sv, Xv, hv, yv], out)
    srng, f = CACHE[key]
    srng.seed(case["seed"])
    return lambda b: f(b, s, X, h, y)


def function_case(check):
    def run(case, ctx):
        with sut("build the step"):
            phys, d = regress.physical(case)
            step = regress.in_units(step_function(phys), d)
        check(normalized(case), step, ctx)

    return run


@st.composite
def sampler_cases(draw):
    case = draw(function_cases())
    case.update(
        X_how=draw(st.sampled_from(PASSING)),
        s_how=draw(st.sampled_from(PASSING + ["python", "observed_rv"])),
        h_how=draw(st.sampled_from(PASSING + ["python", "observed_gamma", "observed_lognormal"])),
        y_how=draw(st.sampled_from(regress.Y_HOW)),
        form=draw(st.sampled_from(regress.FORMS)),
        size=draw(st.sampled_from(["int", "shape"])),
    )
    return case


def check_sampler(case, ctx):
    phys, d = regress.physical(case)
    X, y, _ = regress.unpack(phys)
    srng = RandomStream(case["seed"])
    ins, observed = Inputs(), {}
    h = np.array(case["h"], float)
    with sut("construct and compile the sampler"):
        Xv = design(phys, ins, X)
        how = case["h_how"]
        if how == "python":
            hv = float(h) if h.ndim == 0 else h
        elif how == "observed_gamma":
            hv = srng.gamma(2.0, 1.0, size=h.shape, name="h")
            observed[hv] = at.as_tensor(h)
        elif how == "observed_lognormal":
            hv = srng.lognormal(0.0, 1.0, size=h.shape, name="h")
            observed[hv] = at.as_tensor(h)
        else:
            hv = ins.give(h, how, "h")
        beta = prior(phys, ins, srng, Xv, observed)
        Y = srng.nbinom(hv, at.sigmoid(regress.minus_dot(Xv, beta, case["form"])), name="Y")
        observed[Y] = regress.give_y(ins, Y, y, case["y_how"])
        sampler, init = aemcmc.construct_sampler(observed, srng)
        if sampler.parameters:
            raise Violation("the negative-binomial regression isn't given its Gibbs step")
        f = fn(ins, sampler.sample_steps[beta], [init[beta]], updates=sampler.updates)
    regress.check_step(normalized(case), regress.in_units(f, d), ctx, n=250)


def label(case):
    c = dict(case, h=0.5)
    ls = regress.shape_label(c) + [f"{k}:{case[k]}" for k in ("X_how", "s_how", "y_how", "h_how", "h_shape") if k in case]
    return ls


SUBS = [
    Sub(
        "function",
        function_cases(),
        function_case(regress.check_step),
        quick=56,
        thorough=1500,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="function: at least two observations; 400 exact posterior draws moved by three steps and compared with 1500 others",
    ),
    Sub(
        "sampler",
        sampler_cases(),
        check_sampler,
        quick=40,
        thorough=800,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="sampler: as function, with the step made by construct_sampler for a generated model (designs, scales, dispersions and observations given in different ways)",
    ),
    Sub(
        "convergence",
        function_cases(),
        function_case(lambda c, step, ctx: regress.check_convergence(c, step, ctx, k=60)),
        quick=8,
        thorough=200,
        shards=8,
        weight=2.0,
        label=label,
        nontrivial=nontrivial,
        rule="convergence: 60 chains of 60 steps from starts up to 1000 away",
    ),
]
