"""C19: prior sampling draws independent joint samples of the model.

Generated models are sampled over histories of calls.  Oracles: a numpy reference
that recomputes every deterministic variable and the conditional CDF of every
random variable given its parents in the same draw (which must be uniform and
independent over variables, elements, draws and calls), and the generators' states.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from aemcmc.sample import sample_prior
from aemcmc.utils import get_rv_updates
from vf import stats
from vf.build import PASSING, Inputs, logu, seeds, unif
from vf.core import Skip, Sub, Violation, sut
from vf.run_sampler import rng_state

ASSUMPTIONS = ["every generator that the model uses has an update, either its own default or one recorded by the stream"]

# family -> (parameter kinds, cdf, discrete)
FAMILIES = {
    "normal": (("real", "pos"), lambda x, a, b: ss.norm.cdf((x - a) / b), False),
    "laplace": (("real", "pos"), lambda x, a, b: ss.laplace.cdf((x - a) / b), False),
    "gamma": (("pos", "pos"), lambda x, a, b: ss.gamma.cdf(x * b, a), False),
    "beta": (("pos", "pos"), lambda x, a, b: ss.beta.cdf(x, a, b), False),
    "exponential": (("pos",), lambda x, s: ss.expon.cdf(x / s), False),
    "lognormal": (("real", "pos"), lambda x, a, b: ss.norm.cdf((np.log(x) - a) / b), False),
    "poisson": (("pos",), lambda x, m: ss.poisson.cdf(x, m), True),
    "bernoulli": (("unit",), lambda x, p: ss.bernoulli.cdf(x, p), True),
}
# deterministic functions: symbolic, numpy
DET = {
    "affine": (lambda x, y: 2.0 * x + 1.0, lambda x, y: 2.0 * x + 1.0),
    "sum": (lambda x, y: at.sum(x) - at.as_tensor(3.0), lambda x, y: np.sum(x) - 3.0),
    "add": (lambda x, y: x + y, lambda x, y: x + y),
    "tanh": (lambda x, y: at.tanh(x), lambda x, y: np.tanh(x)),
}
# links from any variable to a parameter
LINKS = {
    "real": (lambda x: at.clip(x, -20.0, 20.0), lambda x: np.clip(x, -20.0, 20.0)),
    "pos": (lambda x: at.exp(at.clip(x, -2.0, 2.0)), lambda x: np.exp(np.clip(x, -2.0, 2.0))),
    "unit": (lambda x: at.sigmoid(at.clip(x, -2.0, 2.0)), lambda x: 1 / (1 + np.exp(-np.clip(x, -2.0, 2.0)))),
}


@st.composite
def cases(draw):
    vs = []
    for i in range(draw(st.integers(1, 6))):
        if i and draw(st.integers(0, 3)) == 0:
            vs.append(dict(det=draw(st.sampled_from(sorted(DET))), of=[draw(st.integers(0, i - 1)), draw(st.integers(0, i - 1))]))
            continue
        fam = draw(st.sampled_from(sorted(FAMILIES)))
        pars = []
        for k in FAMILIES[fam][0]:
            if i and draw(st.integers(0, 2)) > 0:
                pars.append(dict(var=draw(st.integers(0, i - 1))))
            else:
                pars.append(dict(how=draw(st.sampled_from(PASSING)), val=draw({"real": unif(-3, 3), "pos": logu(0.3, 5), "unit": unif(0.1, 0.9)}[k])))
        vs.append(dict(family=fam, pars=pars, size=draw(st.sampled_from([None, None, [], [2], [3], "n", [2, 3]]))))
    n = len(vs)
    want = list(range(n)) if draw(st.booleans()) else draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1))
    return dict(
        vars=vs,
        want=draw(st.permutations(want)),
        n=draw(st.sampled_from([40, 9, 1, 2, 150])),
        n_how=draw(st.sampled_from(["int", "int", "input", "const", "expr"])),
        no_default=draw(st.booleans()),
        own_rng=draw(st.integers(0, 5)),
        seed=draw(seeds),
    )


class PriorModel:
    def __init__(self, case):
        self.ins = ins = Inputs()
        self.srng = srng = RandomStream(case["seed"])
        self.vars, self.ref, self.rngs = [], [], []
        size_n = ins.give(2, "input", "nn", dtype="int64")
        for i, v in enumerate(case["vars"]):
            if "det" in v:
                f, g = DET[v["det"]]
                js = v["of"]
                x = f(*[self.vars[j] for j in js])
                self.ref.append(dict(det=g, of=js, used=js if v["det"] == "add" else js[:1]))
                self.rngs.append(None)
            else:
                kinds, cdf, discrete = FAMILIES[v["family"]]
                pars, vals = [], []
                for j, (k, p) in enumerate(zip(kinds, v["pars"])):
                    if "var" in p:
                        pars.append(LINKS[k][0](self.vars[p["var"]]))
                        vals.append((p["var"], LINKS[k][1]))
                    else:
                        pars.append(ins.give(p["val"], p["how"], f"par{i}_{j}"))
                        vals.append((None, p["val"]))
                scalar = all(getattr(p, "ndim", 0) == 0 for p in pars)
                size = v["size"] if scalar else None
                size = {"n": (size_n,)}.get(size, size) if not isinstance(size, list) else tuple(size)
                kw = {}
                if i == case["own_rng"]:
                    # A random variable that wasn't made with the stream
                    rng = aesara.shared(np.random.default_rng([case["seed"], 5]), name="own")
                    x = getattr(at.random, v["family"])(*(_op_params(v["family"], pars)), size=size, rng=rng)
                    rng.default_update = x.owner.outputs[0]
                else:
                    x = getattr(srng, v["family"])(*pars, size=size, **kw)
                self.ref.append(dict(cdf=cdf, discrete=discrete, pars=vals))
                self.rngs.append(x.owner.inputs[0])
            x.name = f"x{i}"
            self.vars.append(x)

    def parents(self, i):
        r = self.ref[i]
        return r["used"] if "det" in r else [j for j, _ in r["pars"] if j is not None]


def _op_params(family, pars):
    return pars


def check(case, ctx):
    try:
        m = PriorModel(case)
    except (ValueError, TypeError, AssertionError) as e:  # incompatible shapes
        raise Skip from e
    want = case["want"]
    if case["no_default"]:
        # The stream's record of the updates has to suffice
        for i, r in enumerate(m.rngs):
            if r is not None and i != case["own_rng"]:
                r.default_update = None
    needed, todo = set(), list(want)
    while todo:
        i = todo.pop()
        if i not in needed:
            needed.add(i)
            todo += m.parents(i)
    involved = {m.rngs[i] for i in needed if m.rngs[i] is not None}
    n = case["n"]
    num = {"int": lambda: n, "const": lambda: at.as_tensor(n), "input": lambda: m.ins.give(n, "input", "n", dtype="int64"), "expr": lambda: m.ins.give(n - 1, "input", "n", dtype="int64") + 1}[case["n_how"]]()
    try:
        ref = aesara.function(m.ins.vars, [m.vars[i] for i in want], on_unused_input="ignore", no_default_updates=True)(*m.ins.vals)
    except (ValueError, TypeError) as e:
        raise Skip from e
    defaults = {r: r.default_update for r in m.rngs if r is not None}
    with sut("build the prior sampler"):
        samples, updates = sample_prior(m.srng, num, *[m.vars[i] for i in want])
        found = get_rv_updates(m.srng, *[m.vars[i] for i in want])
    samples = list(samples) if isinstance(samples, (list, tuple)) else [samples]
    if {r: r.default_update for r in defaults} != defaults:
        raise Violation("the generators' default updates were changed")
    if len(samples) != len(want):
        raise Violation(f"{len(samples)} arrays for {len(want)} variables")
    for what, keys in (("updates", set(updates)), ("get_rv_updates", set(found))):
        if keys != involved:
            raise Violation(f"{what}: {len(keys)} generators are advanced, {len(involved)} are involved")
    for i in needed:
        if m.rngs[i] is not None and found[m.rngs[i]] is not m.vars[i].owner.outputs[0]:
            raise Violation(f"get_rv_updates gives another update for the generator of {m.vars[i]}")
    with sut("compile the prior sampler"):
        f = aesara.function(m.ins.vars, samples, updates=updates, on_unused_input="ignore")
    state = lambda: {r: rng_state(r.get_value(borrow=True)) for r in defaults}  # noqa: E731

    def calls(k):
        out = []
        for _ in range(k):
            with sut("sample the prior"):
                out.append(f(*m.ins.vals))
        return [np.concatenate(x) for x in zip(*out)]

    before = state()
    with sut("sample the prior"):
        first = f(*m.ins.vals)
    after = state()
    for r in defaults:
        if (before[r] != after[r]) != (r in involved):
            raise Violation(f"a generator that is {'' if r in involved else 'not '}involved is {'' if before[r] != after[r] else 'not '}advanced")
    for i, x, z in zip(want, first, ref):
        if np.shape(x) != (n,) + np.shape(z) or x.dtype != z.dtype:
            raise Violation(f"x{i} of shape {np.shape(z)} ({z.dtype}) was sampled {n} times as {np.shape(x)} ({x.dtype})")

    pos = {i: want.index(i) for i in want}
    rng = np.random.default_rng(case["seed"])

    def uniforms(total):
        """Conditional CDF values by variable and element, over calls."""
        out = calls(max(2, -(-total // n)))
        us = {}
        for i in pos:
            x, r = out[pos[i]], m.ref[i]
            for j, p in enumerate(want):
                if p == i and not np.array_equal(out[j], x):
                    raise Violation(f"x{i} was requested twice, with different results")
            if any(j not in pos for j in m.parents(i)):
                continue
            if "det" in r:
                exact = np.array([r["det"](*[out[pos[j]][k] for j in (r["used"] * 2)[:2]]) for k in range(len(x))])
                if not np.allclose(x, exact, rtol=1e-9, atol=1e-9):
                    raise Violation(f"x{i} isn't the function of the same draw's variables that it is in the model")
                continue
            us_i = []
            for k in range(len(x)):
                ps = [v if j is None else v(np.asarray(out[pos[j]][k], float)) for j, v in r["pars"]]
                hi = r["cdf"](x[k], *ps)
                lo = r["cdf"](x[k] - 1, *ps) if r["discrete"] else hi
                us_i.append(lo + (hi - lo) * rng.uniform(size=np.shape(hi)))
            u = np.array(us_i).reshape(len(x), -1)
            for e in range(min(4, u.shape[1])):
                us[f"x{i}[{e}]"] = np.clip(u[:, e], 0, 1)
            if not r["discrete"]:
                flat = np.asarray(x, float).reshape(len(x), -1)
                if flat.size and len(np.unique(flat[:, 0])) < 0.98 * len(x) and np.ptp(flat[:, 0]) > 1e-9:
                    raise Violation(f"{len(x)} draws of x{i} have {len(np.unique(flat[:, 0]))} different values")
        return us

    def pvals(total, stage):
        us = uniforms(total)
        ps = {}
        names = list(us)
        for a, k in enumerate(names):
            ps.update(stats.uniformity(us[k], k + " "))
            ps.update(stats.uncorrelated(us[k][:-1], us[k][1:], f"{k} with the next draw's"))
            if len(us[k]) > n + 10:
                ps.update(stats.uncorrelated(us[k][:-n], us[k][n:], f"{k} with the next call's"))
            for k2 in names[:a]:
                ps.update(stats.uncorrelated(us[k], us[k2], f"{k} with {k2}"))
        return ps

    total = min(400, 40 * n)
    ctx.counters["draws"] += total
    msg = stats.decide(pvals, total, grow=8)
    if msg:
        raise Violation(f"the draws don't have the model's joint distribution: {msg}")
    # The same states give the same draws
    with sut("sample the prior"):
        vals = {r: r.get_value() for r in involved}
        a = f(*m.ins.vals)
        for r, v in vals.items():
            r.set_value(v)
        b = f(*m.ins.vals)
        c = f(*m.ins.vals)
    if not all(np.array_equal(x, z) for x, z in zip(a, b)):
        raise Violation("the same generator states give different draws")
    if any(not case["vars"][i].get("det") and not m.ref[i]["discrete"] and np.array_equal(x, z) and np.ptp(x) > 1e-9 for i, x, z in zip(want, b, c)):
        raise Violation("another call gives the same draws")


SUBS = [
    Sub(
        "samples",
        cases(),
        check,
        quick=320,
        thorough=3000,
        shards=8,
        nontrivial=lambda c: len(c["vars"]) > 1,
        label=lambda c: ["n=%d" % c["n"], "n " + c["n_how"], "repeated variables" if len(set(c["want"])) < len(c["want"]) else "all distinct", "no default updates" if c["no_default"] else "default updates"],
        rule="a model of at least two variables sampled over several calls",
    ),
]
