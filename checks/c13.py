"""C13: every unobserved variable gets one step and one initial value, self-contained.

Oracle: the declaration of the generated model (which variables are latent or
observed, their types and shapes), compilation with exactly the declared inputs,
and a metamorphic relation: the states of the model's own (prior) generators
don't matter.
"""
import numpy as np
from hypothesis import strategies as st

import aesara
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, graph_inputs
from aesara.tensor.random import RandomStream

from vf.build import rng_ctor, rng_kinds, seeds
from vf.composed import any_models, label, models
from vf.core import Skip, Sub, Violation, sut
from vf.run_sampler import Built, is_rng, moderate_draw, restore_states, save_states, shared_rngs

ASSUMPTIONS = ["aehmc's NUTS kernel is replaced by a random-walk Metropolis kernel on the log-density that aemcmc builds"]


@st.composite
def cases(draw):
    return dict(
        blocks=draw(any_models()),
        seed=draw(seeds),
        rng=draw(rng_kinds),
        mode=draw(st.sampled_from([None, None, None, "FAST_COMPILE"])),
        own_stream=draw(st.booleans()),
        extra=draw(st.booleans()),
        rev_obs=draw(st.booleans()),
    )


def check(case, ctx):
    with aesara.config.change_flags(floatX=case.get("floatX", "float64")):
        _check(case, ctx)


def without_nuts(x):
    """The blocks, with all their variables given closed-form steps."""
    if isinstance(x, dict) and "rv" in x:
        return dict(how="const", val=1.0)
    if isinstance(x, dict):
        x = {k: without_nuts(v) for k, v in x.items()}
        if x.get("scale") == "rv_vector":
            x["scale"] = "vector"
        if x.get("h") == "lognormal":
            x["h"] = "gamma"
        return x
    return [without_nuts(b) for b in x] if isinstance(x, list) else x


@st.composite
def single_cases(draw):
    """Single precision (aehmc's NUTS doesn't support it)."""
    blocks = draw(models(kinds=["gp", "bb", "bnb", "bern", "nb"]))
    return dict(draw(cases()), blocks=without_nuts(blocks), floatX="float32")


def _check(case, ctx):
    srng = RandomStream(case["seed"], rng_ctor=rng_ctor(case))
    b = Built(case["blocks"], case["seed"], srng=srng, sampler_srng=RandomStream(case["seed"] + 1, rng_ctor=rng_ctor(case)) if case["own_stream"] else None, rev_obs=case["rev_obs"], compile_it=False)
    m = b.model
    steps, init = b.sampler.sample_steps, b.init
    want = set(b.latents.values())
    for what, got in (("steps", set(steps)), ("initial values", set(init))):
        if got != want:
            extra, missing = [str(v) for v in got - want], [str(v) for v in want - got]
            raise Violation(f"the {what} are not those of the unobserved variables: unexpected {extra}, missing {missing}")
    if len(set(steps.values())) != len(steps) or len(set(init.values())) != len(init):
        raise Violation("two variables share a step or an initial value")
    for k, v in b.latents.items():
        for what, var in (("step", steps[v]), ("initial value", init[v])):
            if var.type.ndim != v.type.ndim or var.type.dtype != v.type.dtype:
                raise Violation(f"the {what} of {k} ({v.type}) has type {var.type}")
        i = init[v]
        if i.owner is not None or isinstance(i, (Constant, SharedVariable)):
            raise Violation(f"the initial value of {k} is not an input variable: {i} ({i.owner})")
    declared = set(m.ins.vars) | set(init.values()) | set(b.obs_vars.values()) | set(b.params)
    outs = list(steps.values()) + list(b.sampler.updates.values())
    for v in graph_inputs(outs):
        if not isinstance(v, (Constant, SharedVariable)) and v not in declared:
            raise Violation(f"the steps need the undeclared input {v} ({v.type})")
    b.compile(case["mode"])

    # The model's generators and the values they draw are not used
    from aesara.graph.basic import ancestors

    prior = {v for v in ancestors(list(m.observed.values()) + list(m.latents.values())) if is_rng(v) and isinstance(v, SharedVariable)}
    used = shared_rngs(b.f)
    both = [r for r in used if r in prior]
    draw = m.prior_function()
    theta, y = moderate_draw(b, draw)
    saved = save_states(used)
    with sut("run the sampler"):
        one = b.step(theta, y)
    for k in theta:
        if np.shape(one[k]) != np.shape(theta[k]):
            raise Violation(f"the step of {k} has shape {np.shape(one[k])}; the variable has shape {np.shape(theta[k])}")
        if not np.all(np.isfinite(one[k])):
            raise Violation(f"non-finite step of {k}: {one[k]} from {theta} given {y}")
        if np.asarray(one[k]).dtype != b.latents[k].type.dtype:
            raise Violation(f"the step of {k} is {np.asarray(one[k]).dtype}; the variable is {b.latents[k].type.dtype}")
        s = m.support[k]
        if (s != "real" and s != "interval" and np.any(one[k] < 0)) or (s in ("unit", "simplex") and np.any(one[k] > 1)):
            raise Violation(f"the step of {k} is outside of its support: {one[k]}")
    restore_states([(r, v) for r, v in saved if r not in both])
    for r in prior:
        r.set_value(rng_ctor(case)(987654321))
    with sut("run the sampler"):
        two = b.step(theta, y)
    for k in one:
        if not np.array_equal(one[k], two[k]):
            raise Violation(f"the step of {k} depends on the state of the model's own generators")
    with sut("run the sampler from its results"):
        b.step(one, y)


SUBS = [
    Sub(
        "steps",
        cases(),
        check,
        quick=144,
        thorough=1500,
        shards=8,
        label=lambda c: label(c["blocks"]),
        rule="a generated model (1-4 blocks) whose sampler was constructed, compiled with its declared inputs and run",
        shrink=25,
    ),
    Sub(
        "single_precision",
        single_cases(),
        check,
        quick=32,
        thorough=400,
        shards=8,
        label=lambda c: label(c["blocks"]),
        rule="as above, for models without NUTS steps and with floatX=float32",
        shrink=25,
    ),
]
