"""C16: randomness is reproducible, fresh and never shared.

`sampler`: sequences of iterations of constructed samplers under generated
histories of reseeding; `steps`: the posterior step functions.  Oracles: equality
of draws from equal generator states, inequality and independence otherwise, and
the generators' states before and after.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

import aesara
import aesara.tensor as at
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import ancestors, clone_replace, graph_inputs
from aesara.tensor.random import RandomStream

from aemcmc.dists import multivariate_normal_cong2017, multivariate_normal_rue2005, polyagamma
from aemcmc.ffbs import ffbs_step
from aemcmc.gibbs import (
    bern_normal_posterior,
    horseshoe_posterior,
    nbinom_dispersion_posterior,
    nbinom_normal_posterior,
    normal_regression_posterior,
    sample_CRT,
)
from vf import stats
from vf.build import rng_ctor, rng_kinds, seeds
from vf.composed import BLOCKS, label, models, with_dispersion
from vf.core import Skip, Sub, Violation, sut
from vf.run_sampler import Built, is_rng, moderate_draw, restore_states, rng_state, save_states, shared_rngs

ASSUMPTIONS = ["aehmc's NUTS kernel is replaced by a random-walk Metropolis kernel on the log-density that aemcmc builds"]


def ranks(x):
    return (ss.rankdata(x) - 0.5) / len(x)


def independence(series, what, draw_more, n1, n2):
    """Lag-one and pairwise independence of the series (columns) of repeated draws."""

    def pvals(n, stage):
        d = series if stage == 0 else draw_more(n)
        ps = {}
        names = list(d)
        r = {k: ranks(v) for k, v in d.items() if np.ptp(v) > 0}
        for k in r:
            ps.update(stats.uncorrelated(r[k][:-1], r[k][1:], f"{k} with the next call's"))
        for i, a in enumerate(names):
            for b in names[:i]:
                if a in r and b in r and what(a, b):
                    ps.update(stats.uncorrelated(r[a], r[b], f"{a} with {b}"))
        return ps

    return stats.decide(pvals, n1, grow=n2)


@st.composite
def cases(draw):
    blocks = draw(models(kinds=BLOCKS + ["bnb"]))
    extra = draw(st.sampled_from(["none", "same", "dispersion", "same"]))
    if extra == "dispersion":
        blocks = draw(with_dispersion(blocks))
    elif extra == "same":
        blocks = blocks[:2] + [dict(blocks[-1])]  # identical blocks shouldn't share draws
    return dict(blocks=blocks, seed=draw(seeds), rng=draw(rng_kinds), reseeds=draw(st.lists(st.integers(0, 3), min_size=2, max_size=4)))


def components(b):
    """The connected components of the model's latent variables."""
    group = {k: {k} for k in b.latents}
    nodes = {**b.latents, **b.model.observed}
    for v in nodes.values():
        parents = _direct_parents(v, b.latents)
        ks = {k for k, l in b.latents.items() if l in parents or l is v}
        if ks:
            g = set().union(*(group[k] for k in ks))
            for k in g:
                group[k] = g
    return group


def _direct_parents(var, latents):
    found, todo, seen = set(), list(var.owner.inputs), set()
    lat = set(latents.values())
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v in lat:
            found.add(v)
        elif v.owner:
            todo += v.owner.inputs
    return found


def sampler_check(case, ctx):
    b = Built(case["blocks"], case["seed"], srng=RandomStream(case["seed"], rng_ctor=rng_ctor(case)))
    rngs = shared_rngs(b.f)
    upd = {k for k in b.sampler.updates}
    if any(not isinstance(k, SharedVariable) for k in upd):
        raise Violation("the updates' keys are not all shared variables")
    for k in upd:
        if k not in b.f.get_shared():
            raise Violation(f"the updates advance {k}, which no step uses")
    theta, y = moderate_draw(b, b.model.prior_function())

    def run(n):
        res = []
        for _ in range(n):
            with sut("run the sampler"):
                res.append(b.step(theta, y))
        return res

    def same(a, c):
        return all(np.array_equal(x[k], z[k]) for x, z in zip(a, c) for k in x)

    # Equal states give equal draws, unequal ones don't; all generators advance
    start = save_states(rngs)
    before = [rng_state(v) for _, v in start]
    first = run(3)
    after = [rng_state(r.get_value(borrow=True)) for r in rngs]
    for r, s0, s1 in zip(rngs, before, after):
        # (the dispersion step doesn't need draws when there are no counts above one)
        if s0 == s1 and all(np.max(y[k]) > 1 for k in b.model.counts):
            raise Violation(f"the generator {r}, which the steps use, isn't advanced")
    restore_states(start)
    if not same(first, run(3)):
        raise Violation("the same generator states give different draws")
    by_seed = {}
    for s in case["reseeds"]:
        for i, r in enumerate(rngs):
            r.set_value(rng_ctor(case)([s, i]))
        out = run(2)
        if s in by_seed and not same(by_seed[s], out):
            raise Violation("reseeding the generators doesn't reproduce the draws")
        by_seed[s] = out
    outs = list(by_seed.values()) + [first]
    for i in range(len(outs)):
        for j in range(i):
            for k in b.latents:
                if all(np.array_equal(x[k], z[k]) for x, z in zip(outs[i], outs[j])) and k not in b.nuts:
                    raise Violation(f"draws of {k} are the same for different seeds: {outs[i][0][k]}")

    # The stream's own seeding
    if case["seed"] % 2:
        b2 = Built(case["blocks"], case["seed"], srng=RandomStream(case["seed"], rng_ctor=rng_ctor(case)))
        b3 = Built(case["blocks"], case["seed"] + 1, srng=RandomStream(case["seed"] + 1, rng_ctor=rng_ctor(case)))
        a = [b2.step(theta, y) for _ in range(2)]
        c = [b3.step(theta, y) for _ in range(2)]
        if not same(first[:2], a):
            raise Violation("streams with the same seed give different draws")
        for k in b.latents:
            if k not in b.nuts and all(np.array_equal(x[k], z[k]) for x, z in zip(a, c)):
                raise Violation(f"streams with different seeds give the same draws of {k}")
        # ... and reseeding the stream
        b2.srng.seed(case["seed"] + 7)
        a = [b2.step(theta, y) for _ in range(2)]
        b2.srng.seed(case["seed"] + 7)
        if not same(a, [b2.step(theta, y) for _ in range(2)]):
            raise Violation("reseeding the stream doesn't reproduce the draws")

    # Kernels don't use the same generators
    kernels = {}
    for k, v in b.steps.items():
        kernels.setdefault(v.owner, []).append(k)
    new = {k: v.clone() for k, v in b.steps.items()}
    users = {}
    for node, ks in kernels.items():
        others = {b.steps[k]: new[k] for k in b.steps if k not in ks}
        outs_k = clone_replace([b.steps[k] for k in ks], others) if others else [b.steps[k] for k in ks]
        for v in graph_inputs(_with_inner(outs_k)):
            if isinstance(v, SharedVariable) and is_rng(v):
                if v in users:
                    raise Violation(f"the steps of {users[v]} and {ks} use the same generator")
                users[v] = ks

    # Fresh, independent draws over calls, elements and unconnected variables
    group = components(b)

    def draws(n):
        rows = run(n)
        d = {}
        for k in rows[0]:
            if k in b.nuts:
                continue
            for i in range(min(3, rows[0][k].size)):
                d[f"{k}[{i}]"] = np.array([np.ravel(r[k])[i] for r in rows])
        return d

    if len(b.nuts) == len(b.latents):
        return
    n1 = 150
    d = draws(n1)
    for k, v in d.items():
        if len(np.unique(v)) < 0.9 * n1 and not k.startswith("h"):
            raise Violation(f"draws of {k} repeat: {n1 - len(np.unique(v))} of {n1}")
    ctx.counters["iterations"] += n1
    independent = lambda a, c: a.split("[")[0] not in group[c.split("[")[0]]  # noqa: E731
    msg = independence(d, independent, draws, n1, 8)
    if msg:
        raise Violation(f"draws aren't independent: {msg}")


def _with_inner(outs):
    """The variables and those of the inner graphs they're computed with."""
    res = list(outs)
    for v in list(ancestors(outs)):
        if v.owner is not None and hasattr(v.owner.op, "inner_outputs"):
            res += list(v.owner.op.inner_outputs)
            res += list(getattr(v.owner.op, "shared_inputs", []))
    return res


# The step functions


STEPS = ["bern", "nbinom", "horseshoe", "dispersion", "crt", "regression", "rue", "cong", "polyagamma", "ffbs"]


@st.composite
def step_cases(draw):
    return dict(
        kinds=draw(st.lists(st.sampled_from(STEPS), min_size=1, max_size=3)),
        n=draw(st.sampled_from([3, 1, 6])),
        p=draw(st.sampled_from([2, 1, 4])),
        seed=draw(seeds),
        rng=draw(rng_kinds),
        reseeds=draw(st.lists(st.integers(0, 2), min_size=2, max_size=4)),
    )


def build_step(kind, srng, n, p, rng):
    """One call of a step function with fixed inputs: outputs and updates."""
    X = at.as_tensor(np.round(rng.normal(size=(n, p)), 2))
    beta, sd = at.as_tensor(np.round(rng.normal(size=p), 2)), at.as_tensor(np.linspace(0.5, 1.5, p))
    y = at.as_tensor(np.arange(n) % 2)
    counts = at.as_tensor((np.arange(n) * 3) % 7 + 4)
    if kind == "bern":
        return [bern_normal_posterior(srng, beta, sd, X, y)], {}
    if kind == "nbinom":
        return [nbinom_normal_posterior(srng, beta, sd, X, at.as_tensor(2.0), counts)], {}
    if kind == "horseshoe":
        return list(horseshoe_posterior(srng, beta, at.as_tensor(1.0), at.ones(p), at.as_tensor(1.0))), {}
    if kind == "dispersion":
        h, u = nbinom_dispersion_posterior(srng, at.as_tensor(3.0), at.as_tensor(np.full(n, 0.4)), at.as_tensor(2.0), at.as_tensor(1.0), counts)
        return [h], u
    if kind == "crt":
        s, u = sample_CRT(srng, counts * 5, at.as_tensor(4.0))
        return [s], u
    if kind == "regression":
        return [normal_regression_posterior(srng, at.ones(n), 1 / sd, X, at.as_tensor(np.linspace(-1, 1, n)))], {}
    if kind == "rue":
        return [multivariate_normal_rue2005(srng, beta, at.diag(sd))], {}
    if kind == "cong":
        return [multivariate_normal_cong2017(srng, sd, at.ones(n), X, at.as_tensor(np.linspace(-1, 1, n)))], {}
    if kind == "polyagamma":
        return [srng.gen(polyagamma, at.as_tensor(np.full(n, 1.5)), 0.7)], {}
    S, T = 3, n + 3
    lik = at.as_tensor(np.log(rng.dirichlet(np.ones(S) * 5, size=T)).T)
    s, u = ffbs_step(at.as_tensor(np.ones(S) / S), at.as_tensor(rng.dirichlet(np.ones(S) * 5, size=(1, S))), lik, srng)
    return [s], u


def step_check(case, ctx):
    n, p = case["n"], case["p"]

    def build(seed):
        srng = RandomStream(seed, rng_ctor=rng_ctor(case))
        outs, upd, where = [], {}, []
        for kind in case["kinds"]:
            with sut(f"build {kind}"):
                o, u = build_step(kind, srng, n, p, np.random.default_rng(3))
            for v in o:
                where.append(kind)
                outs.append(v)
            upd.update(u)
        with sut("compile the steps"):
            return aesara.function([], outs, updates=upd), where, srng

    f, where, srng = build(case["seed"])
    rngs = shared_rngs(f)
    start = save_states(rngs)

    def run(n):
        with sut("run the steps"):
            return [f() for _ in range(n)]

    def same(a, c):
        return all(np.array_equal(x, z) for r, s in zip(a, c) for x, z in zip(r, s))

    first = run(4)
    for (r, v) in start:
        if rng_state(v) == rng_state(r.get_value(borrow=True)):
            raise Violation(f"the generator {r} isn't advanced")
    restore_states(start)
    if not same(first, run(4)):
        raise Violation("the same generator states give different draws")
    g, _, srng2 = build(case["seed"])
    with sut("run the steps"):
        if not same(first, [g() for _ in range(4)]):
            raise Violation("streams with the same seed give different draws")
    by_seed = {}
    for s in case["reseeds"]:
        for i, r in enumerate(rngs):
            r.set_value(rng_ctor(case)([s, i]))
        out = run(4)
        if s in by_seed and not same(by_seed[s], out):
            raise Violation("reseeding the generators doesn't reproduce the draws")
        by_seed[s] = out

    def draws(n):
        rows = run(n)
        d = {}
        for j, kind in enumerate(where):
            for i in range(min(3, rows[0][j].size)):
                d[f"{j}:{kind}[{i}]"] = np.array([np.ravel(r[j])[i] for r in rows], dtype=float)
        return d

    n1 = 200
    d = draws(n1)
    ctx.counters["iterations"] += n1
    call = {}  # output -> call
    c = -1
    for j, kind in enumerate(where):
        if kind != "horseshoe" or j == 0 or call.get(j - 1, (None, None))[1] != "horseshoe" or call[j - 1][2] == 2:
            c += 1
            call[j] = (c, kind, 1)
        else:
            call[j] = (c, kind, 2)

    elementwise = {"crt", "polyagamma"}

    def independent(a, b):
        ja, jb = int(a.split(":")[0]), int(b.split(":")[0])
        if call[ja][0] != call[jb][0]:
            return True
        return ja == jb and where[ja] in elementwise

    for k, v in d.items():
        if np.ptp(v) == 0 and "ffbs" not in k and "crt" not in k:
            raise Violation(f"{n1} draws of {k} are all the same: {v[0]}")
    msg = independence(d, independent, draws, n1, 8)
    if msg:
        raise Violation(f"draws aren't independent: {msg}")


SUBS = [
    Sub(
        "sampler",
        cases(),
        sampler_check,
        quick=56,
        thorough=900,
        shards=8,
        label=lambda c: label(c["blocks"]) + (["repeated seeds"] if len(set(c["reseeds"])) < len(c["reseeds"]) else []),
        rule="a generated model whose sampler was run under a history of reseedings and, if it has specialised steps, 150 more times",
        shrink=20,
    ),
    Sub(
        "steps",
        step_cases(),
        step_check,
        quick=24,
        thorough=800,
        shards=8,
        label=lambda c: c["kinds"] + ["several steps" if len(c["kinds"]) > 1 else "one step"],
        rule="1-3 step functions built with one stream and run at least 210 times",
        shrink=20,
    ),
]
