"""C02: the logistic-regression coefficient step targets the exact posterior.

Oracle: exact posterior draws by rejection sampling (vf.posterior).  A step
started from exact draws must give exact draws again; steps from extreme
starting points must reach the posterior.
"""
import numpy as np
from hypothesis import strategies as st

import aemcmc
import aemcmc.gibbs as gibbs
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from checks.c07 import give_matrix
from vf import regress
from vf.build import PASSING, Inputs, fn
from vf.core import Skip, Sub, Violation, sut

ASSUMPTIONS = [
    "at most 9 observations and 4 coefficients, prior scales in [0.1, 80], linear predictors within 300 of zero, up to units of 1e-5 to 1e5 of each covariate",
]
KIND = "bernoulli"
CACHE = {}


def step_function(case):
    """The step as built by the function, compiled once per kind of scale."""
    X, y, _ = regress.unpack(case)
    s = np.array(case["scale"], float)
    key = (s.ndim, s.shape == (1,))
    if key not in CACHE:
        srng = RandomStream(0)
        beta, Xv, yv = at.vector("beta"), at.matrix("X"), at.lvector("y")
        sv = at.tensor("float64", shape=(1,) if key[1] else (None,) * s.ndim, name="s")
        out = gibbs.bern_normal_posterior(srng, beta, sv, Xv, yv)
        CACHE[key] = srng, aesara.function([beta, sv, Xv, yv], out)
    srng, f = CACHE[key]
    srng.seed(case["seed"])
    return lambda b: f(b, s, X, y)


def function_case(check):
    def run(case, ctx):
        with sut("build the step"):
            phys, d = regress.physical(case)
            step = regress.in_units(step_function(phys), d)
        check(case, step, ctx)

    return run


@st.composite
def sampler_cases(draw):
    case = draw(regress.regression(KIND))
    case.update(
        X_how=draw(st.sampled_from(PASSING)),
        s_how=draw(st.sampled_from(PASSING + ["python", "observed_rv"])),
        y_how=draw(st.sampled_from(regress.Y_HOW)),
        form=draw(st.sampled_from(regress.FORMS)),
        size=draw(st.sampled_from(["int", "shape"])),
    )
    return case


def prior(case, ins, srng, Xv, observed):
    """The coefficients' prior."""
    s = np.array(case["scale"], float)
    p = len(case["X"][0])
    how = case["s_how"]
    if how == "python":
        sv = float(s) if s.ndim == 0 else s
    elif how == "observed_rv":
        sv = srng.gamma(2.0, 1.0, size=s.shape, name="s")
        observed[sv] = at.as_tensor(s)
    else:
        sv = ins.give(s, how, "s")
    return srng.normal(0, sv, size=Xv.shape[1] if case["size"] == "shape" else p, name="beta")


def design(case, ins, X):
    if case["X_how"] == "const" and not np.any(X):
        # The linear predictor is simplified away
        raise Skip
    return at.as_tensor(X) if case["X_how"] == "const" else give_matrix(ins, X, case["X_how"])


def check_sampler(case, ctx):
    phys, d = regress.physical(case)
    X, y, _ = regress.unpack(phys)
    srng = RandomStream(case["seed"])
    ins, observed = Inputs(), {}
    with sut("construct and compile the sampler"):
        Xv = design(phys, ins, X)
        beta = prior(phys, ins, srng, Xv, observed)
        Y = srng.bernoulli(at.sigmoid(regress.minus_dot(Xv, beta, case["form"])), name="Y")
        observed[Y] = regress.give_y(ins, Y, y, case["y_how"])
        sampler, init = aemcmc.construct_sampler(observed, srng)
        if sampler.parameters:
            raise Violation("the logistic regression isn't given its Gibbs step")
        f = fn(ins, sampler.sample_steps[beta], [init[beta]], updates=sampler.updates)
    # The model's success probability is sigmoid(-X beta)
    regress.check_step(dict(case, y=(1 - y).tolist()), regress.in_units(f, d), ctx, n=300)


def label(case):
    return regress.shape_label(case) + [f"{k}:{case[k]}" for k in ("X_how", "s_how", "y_how", "form") if k in case]


def nontrivial(case):
    return len(case["X"]) > 1


SUBS = [
    Sub(
        "function",
        regress.regression(KIND),
        function_case(regress.check_step),
        quick=64,
        thorough=1500,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="function: at least two observations; 400 exact posterior draws moved by three steps and compared with 1500 others",
    ),
    Sub(
        "sampler",
        sampler_cases(),
        check_sampler,
        quick=40,
        thorough=800,
        shards=8,
        label=label,
        nontrivial=nontrivial,
        rule="sampler: as function, with the step made by construct_sampler for a generated model (designs, scales and observations given in different ways)",
    ),
    Sub(
        "convergence",
        regress.regression(KIND),
        function_case(regress.check_convergence),
        quick=8,
        thorough=200,
        shards=8,
        weight=2.0,
        label=label,
        nontrivial=nontrivial,
        rule="convergence: 60 chains of 40 steps from starts up to 1000 away",
    ),
]
