"""C14: constructing a sampler leaves the user's model untouched and is repeatable.

Histories of constructions, prior draws and posterior iterations on one model
are compared with a reference: the same prior draws from an identical model on
which nothing else was ever done, and iterations of samplers constructed first
thing from identical models.
"""
import numpy as np
from hypothesis import strategies as st

import aemcmc
import aesara
from aesara.graph.basic import Constant
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random import RandomStream

from vf import nutsub
from vf.build import rng_ctor, rng_kinds, seeds
from vf.composed import BLOCKS, Model, any_models, label, used_latents
from vf.core import Skip, Sub, Violation, sut
from vf.run_sampler import Built, is_rng, moderate_draw, rng_state

ASSUMPTIONS = ["aehmc's NUTS kernel is replaced by a random-walk Metropolis kernel on the log-density that aemcmc builds"]


@st.composite
def cases(draw):
    return dict(
        blocks=draw(any_models(max_blocks=3)),
        seed=draw(seeds),
        rng=draw(rng_kinds),
        seed2=draw(seeds),
        ops=["construct"] + draw(st.lists(st.sampled_from(["construct", "prior", "prior", "step", "recompile"]), min_size=2, max_size=5)),
    )


def fingerprint(outputs):
    """The graph's structure, by identity, and the states of its generators."""
    todo, seen, res, states = list(outputs), set(), [], []
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        node = v.owner
        res.append((id(v), v.name, str(v.type), id(node), id(node.op) if node else None, tuple(id(i) for i in node.inputs) if node else None))
        if isinstance(v, SharedVariable):
            u = v.default_update
            if u is not None and u.owner is not None and type(u.owner.op).__name__ == "UpdatePlaceholder":
                u = None  # an inert mark that aesara's `OpFromGraph` leaves
            res.append(("default_update", id(v), id(u)))
            states.append((id(v), rng_state(v.get_value(borrow=True)) if is_rng(v) else repr(v.get_value(borrow=True))))
        if isinstance(v, Constant):
            res.append(("const", id(v), repr(v.data)))
        if node:
            todo += list(node.inputs)
    return res, states


def check(case, ctx):
    # The reference: the same model and stream, on which nothing is constructed
    ref = Model(case["blocks"], RandomStream(case["seed"], rng_ctor=rng_ctor(case)))
    ref_draw = ref.prior_function()

    srng = RandomStream(case["seed"], rng_ctor=rng_ctor(case))
    m = Model(case["blocks"], srng)
    latents = used_latents(m)
    obs_vars = {k: v.clone() for k, v in m.observed.items()}
    roots = list(m.latents.values()) + list(m.observed.values())
    draw = m.prior_function()

    def prior(f, what):
        try:
            want = ref_draw()
        except ValueError as e:  # e.g. probabilities that underflow
            raise Skip from e
        got = f()
        for k in want:
            if not np.array_equal(want[k], got[k]):
                raise Violation(f"{what}: prior draws of {k} differ from those of a model that wasn't used ({got[k]} instead of {want[k]})")

    samplers = []
    held = None

    def construct():
        mapping = {m.observed[k]: vv for k, vv in obs_vars.items()}
        before_map = list(mapping.items())
        before, states = fingerprint(roots)
        stream = RandomStream(case["seed2"], rng_ctor=rng_ctor(case))
        with sut("construct the sampler"), nutsub.kernel("mh", 3):
            sampler, init = aemcmc.construct_sampler(mapping, stream)
        after, states2 = fingerprint(roots)
        if before != after:
            raise Violation("constructing the sampler changed the model's graph")
        if states != states2:
            raise Violation("constructing the sampler changed the state of a generator or shared value of the model")
        if list(mapping.items()) != before_map:
            raise Violation("constructing the sampler changed the mapping of the observed variables")
        params = [p for ps in sampler.parameters.values() for p in ps]
        with sut("compile the sampler"):
            f = aesara.function(
                m.ins.vars + [init[v] for v in latents.values()] + list(obs_vars.values()) + params,
                [sampler.sample_steps[v] for v in latents.values()],
                updates=sampler.updates,
                on_unused_input="ignore",
            )
        samplers.append(dict(f=f, params=params, n=0))

    b = Built(case["blocks"], case["seed"], srng=RandomStream(case["seed"], rng_ctor=rng_ctor(case)), compile_it=False)  # only to describe the variables
    theta, y = moderate_draw(b, Model(case["blocks"], RandomStream(12345)).prior_function())

    outs = {}  # iteration -> draws of the first sampler that got there

    def step(s):
        vals = b.param_values(theta)[: len(s["params"])]
        with sut("run the sampler"):
            r = s["f"](*m.ins.vals, *[theta[k] for k in latents], *[y[k] for k in obs_vars], *vals)
        n = s["n"]
        s["n"] += 1
        if n in outs:
            for k, x, x0 in zip(latents, r, outs[n]):
                if not np.array_equal(x, x0):
                    raise Violation(f"two samplers constructed with streams in the same state differ: iteration {n} of {k} gives {x} and {x0}")
        else:
            outs[n] = r

    for op in case["ops"]:
        if op == "construct":
            construct()
            step(samplers[-1])
        elif op == "prior":
            prior(draw, "after " + ", ".join(case["ops"]))
        elif op == "recompile":
            draw = m.prior_function()
        else:
            step(samplers[-1])
    prior(draw, "at the end")
    prior(m.prior_function(), "at the end, recompiled")

    # A newly built identical model
    srng3 = RandomStream(case["seed"], rng_ctor=rng_ctor(case))
    m3 = Model(case["blocks"], srng3)
    lat3 = used_latents(m3)
    obs3 = {k: v.clone() for k, v in m3.observed.items()}
    with sut("construct the sampler"), nutsub.kernel("mh", 3):
        sampler, init = aemcmc.construct_sampler({m3.observed[k]: v for k, v in obs3.items()}, RandomStream(case["seed2"], rng_ctor=rng_ctor(case)))
    params = [p for ps in sampler.parameters.values() for p in ps]
    with sut("compile the sampler"):
        f = aesara.function(
            m3.ins.vars + [init[v] for v in lat3.values()] + list(obs3.values()) + params,
            [sampler.sample_steps[v] for v in lat3.values()],
            updates=sampler.updates,
            on_unused_input="ignore",
        )
    for n in sorted(outs):
        with sut("run the sampler"):
            r = f(*m3.ins.vals, *[theta[k] for k in lat3], *[y[k] for k in obs3], *b.param_values(theta)[: len(params)])
        for k, x, x0 in zip(lat3, r, outs[n]):
            if not np.array_equal(x, x0):
                raise Violation(f"the sampler of a newly built identical model differs: iteration {n} of {k} gives {x} and {x0}")


SUBS = [
    Sub(
        "histories",
        cases(),
        check,
        quick=44,
        thorough=1200,
        shards=8,
        label=lambda c: label(c["blocks"]) + ["op=" + o for o in c["ops"]],
        nontrivial=lambda c: True,
        rule="a model with a history of at least 3 operations (constructions, prior draws, iterations) compared with references",
        shrink=25,
    ),
]
