"""Which values the steps of a sampler condition on."""
from types import SimpleNamespace

import numpy as np

import aesara
from aesara.graph.basic import ancestors, clone_replace

from vf.core import Violation, sut
from vf.run_sampler import moderate_draw, restore_states, save_states, shared_rngs


def scan_order(b, seed, ctx):
    """Check, for each kernel of a sampler in turn, which values its results depend on.

    The new values of the other variables are made inputs, and the results are
    evaluated with the generators in fixed states: they must not depend on the old
    values of variables listed before, nor on the new values of those listed after.
    """
    s, m = b.sampler, b.model
    names = list(b.latents)
    theta, y = moderate_draw(b, m.prior_function())
    order = [{v: k for k, v in b.latents.items()}[v] for v in s.sample_steps]
    nodes = {}
    for k in order:
        nodes.setdefault(b.steps[k].owner, []).append(k)
    ctx.counters["kernels"] += len(nodes)

    new = {k: b.steps[k].type.clone(shape=(None,) * b.steps[k].type.ndim)(f"new_{k}") for k in names}
    params = b.param_values(theta)
    rng = np.random.default_rng(seed)
    for node, ks in nodes.items():
        others = [k for k in names if k not in ks]
        mine = [b.steps[k] for k in ks]
        if others:
            mine = clone_replace(mine, {b.steps[k]: b.steps[k].type.filter_variable(new[k]) for k in others})
        anc = set(ancestors(mine))
        pos = {k: order.index(k) for k in names}
        stale = [k for k in others if pos[k] < min(pos[j] for j in ks) and b.inits[k] in anc]
        early = [k for k in others if pos[k] > max(pos[j] for j in ks) and new[k] in anc]
        mixed = [k for k in others if min(pos[j] for j in ks) < pos[k] < max(pos[j] for j in ks)]
        if mixed:
            raise Violation(f"{mixed} is listed between the variables {ks}, which are updated jointly")
        tuned = [p for p in b.params if p in anc]
        with sut(f"compile the step of {ks}"):
            ins = m.ins.vars + list(b.inits.values()) + [new[k] for k in names] + list(b.obs_vars.values()) + b.params
            f = aesara.function(ins, mine, on_unused_input="ignore")
        rngs = shared_rngs(f)
        states = save_states(rngs)

        def run(th, nw, ps, f=f, states=states):
            restore_states(states)
            return f(*m.ins.vals, *[th[k] for k in b.inits], *[nw[k] for k in names], *[y[k] for k in b.obs_vars], *ps)

        def redraw():
            for r in rngs:
                r.set_value(np.random.default_rng(rng.integers(2**32)))
            states[:] = save_states(rngs)

        # Different old and new values that are both in the supports
        alt = dict(theta)
        draw = m.prior_function()
        for _ in range(3):
            other, _ = moderate_draw(b, draw)
            try:
                base = run(theta, other, params)
            except Exception:  # noqa: BLE001  (an inconsistent mixture of values)
                continue
            for what, ps, where in (("old", stale, "before"), ("new", early, "after")):
                for k in ps:
                    alt, alt2 = dict(theta), dict(other)
                    if what == "old":
                        alt[k] = other[k]
                    else:
                        alt2[k] = theta[k]
                    got = run(alt, alt2, params)
                    if not all(np.array_equal(x, z, equal_nan=True) for x, z in zip(base, got)):
                        raise Violation(f"the step of {ks} uses the {what} value of {k}, which is listed {where} it")
        yield SimpleNamespace(ks=ks, tuned=tuned, run=run, redraw=redraw, theta=theta, params=params)
