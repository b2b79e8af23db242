"""C12: the NUTS step leaves the posterior invariant in the original space.

`density`: with a kernel whose next position is an explicit input, the step is a
deterministic map q -> x and the log-density given to NUTS a function of q.
Oracle: the change of variables formula with scipy's densities and a numerical
Jacobian of the map, and the round trip between initial values and positions.

`real`: aehmc's own kernel, Geweke's joint distribution test.
"""
import numpy as np
from hypothesis import strategies as st

import aesara
from aesara.graph.basic import Constant, graph_inputs
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random import RandomStream

import aemcmc
from aemcmc import nuts
from checks.c06 import elements, functional_means, rank_in, summaries
from vf import nutsub, stats
from vf.build import seeds
from vf.continuous import FAMILIES, Model, models
from vf.core import Skip, Sub, Violation, sut

ASSUMPTIONS = [
    "aeppl's densities and transforms and aehmc's kernel are trusted where they agree with scipy; pareto, von Mises and shifted half-Cauchy variables, whose default aeppl transforms don't match their supports, are not generated",
]


@st.composite
def cases(draw, **kw):
    m = draw(models(**kw))
    n = len(m["vars"])
    api = draw(st.sampled_from(["sampler", "sampler", "direct"]))
    case = dict(model=m, api=api, seed=draw(seeds), qseed=draw(st.integers(0, 9999)))
    if api == "direct":
        order = draw(st.permutations(range(n)))
        case["sample"] = list(order[: draw(st.integers(1, n))])
        case["rev_realized"] = draw(st.booleans())
    return case


class Nuts:
    def __init__(self, case, kernel):
        self.case = case
        self.srng = RandomStream(case["seed"])
        self.model = m = Model(case["model"], self.srng)
        n = len(m.rvs)
        self.sampled = case.get("sample", list(range(n)))
        self.inits = {}
        self.obs_vars = [v.clone() for v in m.obs]
        with sut("construct the NUTS step"), nutsub.kernel(kernel) as probes:
            if case["api"] == "direct":
                vvs = {i: v.clone() for i, v in enumerate(m.rvs)}
                realized = [(m.rvs[i], vvs[i]) for i in range(n) if i not in self.sampled]
                realized += list(zip(m.obs, self.obs_vars))
                if case["rev_realized"]:
                    realized = realized[::-1]
                steps, self.updates, params = nuts.construct_sampler(self.srng, {m.rvs[i]: vvs[i] for i in self.sampled}, dict(realized))
                self.inits = vvs
            else:
                sampler, init = aemcmc.construct_sampler(dict(zip(m.obs, self.obs_vars)), self.srng)
                steps, self.updates, params = sampler.sample_steps, sampler.updates, sampler.parameters
                self.inits = {i: init[v] for i, v in enumerate(m.rvs)}
            self.probes = list(probes)
        if len(params) != 1:
            raise Violation(f"{len(params)} kernels have tuning parameters")
        if set(steps) != {m.rvs[i] for i in self.sampled}:
            raise Violation("the steps' keys are not the variables to sample")
        (self.params,) = params.values()
        self.steps = {i: steps[m.rvs[i]] for i in self.sampled}
        for i, s in self.steps.items():
            if s.type.ndim != m.rvs[i].type.ndim or s.type.dtype != m.rvs[i].type.dtype:
                raise Violation(f"the step of {m.rvs[i]} has type {s.type}")

    def inputs(self):
        return self.model.ins.vars + list(self.inits.values()) + self.obs_vars

    def args(self, vals, ys):
        return [*self.model.ins.vals, *[vals[i] for i in self.inits], *ys]

    def prior(self):
        m = self.model
        f = aesara.function(m.ins.vars, m.rvs + m.obs, on_unused_input="ignore")

        def draw():
            out = f(*m.ins.vals)
            return out[: len(m.rvs)], out[len(m.rvs) :]

        return draw

    def dim(self, vals):
        return sum(len(self.model.free(i, vals[i])) for i in self.sampled)


def density_check(case, ctx):
    b = Nuts(case, "probe")
    m = b.model
    if not b.probes:
        raise Violation("the step doesn't use the NUTS kernel")
    p = b.probes[-1]
    with sut("compile the step"):
        f = aesara.function(b.inputs() + [p["q_new"], *b.params], list(b.steps.values()), on_unused_input="ignore")
        g = aesara.function(b.inputs() + [p["q_new"]], [p["q"], p["logprob"], p["logprob0"]], on_unused_input="ignore")
    draw = b.prior()
    rng = np.random.default_rng(case["qseed"])
    refs, points = [], 0
    for _ in range(3):
        vals, ys = draw()
        if not all(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e4) and m.in_support(i, vals) for i, v in enumerate(vals)):
            continue
        if any(np.any(np.abs(m.free(i, v)) < 1e-3) for i, v in enumerate(vals)):
            continue
        d = b.dim(vals)
        par = [np.array(0.1), np.ones(d)]
        q_any = np.zeros(d)

        def x_of(q):
            with sut("run the step"):
                out = f(*b.args(vals, ys), q, *par)
            new = list(vals)
            for i, o in zip(b.steps, out):
                new[i] = o
            return new

        def lp_of(q, v=None):
            with sut("evaluate the log-density"):
                return g(*b.args(vals if v is None else v, ys), q)

        # The initial position corresponds to the initial values
        q0, _, lp0 = lp_of(q_any)
        if np.shape(q0) != (d,):
            raise Violation(f"the position has shape {np.shape(q0)}, but the sampled variables have {d} degrees of freedom")
        back = x_of(q0)
        for i in b.sampled:
            if np.shape(back[i]) != np.shape(vals[i]):
                raise Violation(f"the step of x{i} has shape {np.shape(back[i])}, its value {np.shape(vals[i])}")
            if not np.allclose(back[i], vals[i], rtol=1e-6, atol=1e-8):
                raise Violation(f"the value of x{i}, {vals[i]}, becomes {back[i]} when NUTS stays at its initial position")
        for k in range(3):
            q = q0 if k == 0 else (q0 + rng.normal(0, 0.7, d) if k == 1 else rng.normal(0, 1.0, d))
            x = x_of(q)
            for i in b.sampled:
                if not np.all(np.isfinite(x[i])) or not m.in_support(i, x):
                    raise Violation(f"x{i} = {x[i]} is not in its support (values {x})")
            ref = m.log_density(x, ys)
            if not np.isfinite(ref) or abs(ref) > 1e5:
                continue
            jac = np.zeros((d, d))
            h = 1e-5
            free = lambda v: np.concatenate([m.free(i, v[i]) for i in b.sampled])  # noqa: E731
            for c in range(d):
                e = np.zeros(d)
                e[c] = h
                jac[:, c] = (free(x_of(q + e)) - free(x_of(q - e))) / (2 * h)
            sign, ldet = np.linalg.slogdet(jac)
            if sign == 0 or not np.isfinite(ldet) or ldet < -40:
                continue
            _, lp, _ = lp_of(q)
            refs.append((ref + ldet, float(lp), q, x, ys))
            points += 1
            if k == 0 and not np.isclose(lp, lp0, rtol=1e-8, atol=1e-8):
                raise Violation(f"the kernel's initial state has log-density {lp0}; the log-density function gives {lp}")
            # The density doesn't depend on the initial values of what is sampled
            if k == 1:
                other = list(vals)
                for i in b.sampled:
                    other[i] = x[i]
                q1, lp1, _ = lp_of(q, other)
                if not np.isclose(lp1, lp, rtol=1e-9, atol=1e-9):
                    raise Violation(f"the log-density depends on the initial values: {lp} and {lp1}")
                if not np.allclose(q1, q, rtol=1e-5, atol=1e-5) and np.max(np.abs(q)) < 15:
                    raise Violation(f"initial values {other} give position {q1}, but come from position {q}")
    if points < 2:
        raise Skip
    ctx.counters["points"] += points
    diffs = np.array([r[1] - r[0] for r in refs])
    tol = 1e-4 + 1e-6 * max(abs(r[0]) for r in refs)
    if np.ptp(diffs) > tol:
        i, j = int(np.argmin(diffs)), int(np.argmax(diffs))
        raise Violation(
            "log-density differences don't follow the change of variables formula: "
            f"between {refs[i][3]} (y={refs[i][4]}) and {refs[j][3]} (y={refs[j][4]}) NUTS uses {refs[j][1] - refs[i][1]:.6g}, the model gives {refs[j][0] - refs[i][0]:.6g}"
        )


LIGHT = ["normal", "logistic", "gamma", "lognormal", "halfnormal", "exponential", "beta", "uniform", "dirichlet"]


def real_check(case, ctx):
    b = Nuts(case, "real")
    m = b.model
    with sut("compile the step"):
        f = aesara.function(b.inputs() + list(b.params), list(b.steps.values()), updates=b.updates, on_unused_input="ignore")
    draw = b.prior()
    rng = np.random.default_rng(case["qseed"])
    scales = rng.choice([0.5, 1.0, 2.0], size=200)
    unmoved = 0

    def pvals(n, stage):
        nonlocal unmoved
        t0, t1, yy = [], [], []
        while len(t0) < n:
            vals, ys = draw()
            if not all(np.all(np.abs(v) < 1e4) and np.all(np.isfinite(v)) for v in [*vals, *ys]):
                continue
            if any(m.support(i) != "real" and np.any(np.abs(v) < 1e-3) for i, v in enumerate(vals)):
                continue
            d = b.dim(vals)
            try:
                out = f(*b.args(vals, ys), np.array(case["step"] / d**0.25), scales[:d] if case["mass"] else np.ones(d))
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ != "ParameterValueError":
                    raise Violation(f"the step raised {type(e).__name__}: {str(e)[:300]} at {vals}") from e
                out = [vals[i] for i in b.sampled]
            new = list(vals)
            for i, o in zip(b.sampled, out):
                if np.shape(o) != np.shape(vals[i]):
                    raise Violation(f"the step changed the shape of x{i} from {np.shape(vals[i])} to {np.shape(o)}")
                new[i] = o
            unmoved += all(np.array_equal(new[i], vals[i]) for i in b.sampled)
            for i in b.sampled:
                if not m.in_support(i, new):
                    raise Violation(f"x{i} = {new[i]} is not in its support (values {new})")
            t0.append(elements({f"x{i}": v for i, v in enumerate(vals)}))
            t1.append(elements({f"x{i}": v for i, v in enumerate(new)}))
            yy.append(summaries({f"Y{j}": v for j, v in enumerate(ys)}))
        names = list(t0[0])
        ref = {nm: np.sort([t[nm] for t in t0]) for nm in names}
        q = np.stack([rank_in(np.sort([y[k] for y in yy]), np.array([y[k] for y in yy])) - 0.5 for k in yy[0]], 1)
        a, labels = functional_means(names, ref, list(yy[0]), t0, q)
        c, _ = functional_means(names, ref, list(yy[0]), t1, q)
        ctx.counters["iterations"] += n
        return stats.paired_means(c, a, labels)

    msg = stats.decide(pvals, 120)
    if msg:
        raise Violation(f"a NUTS step changes the joint distribution of the variables and data: {msg}")
    if unmoved > 100:
        # Is it the step size?
        for _ in range(30):
            vals, ys = draw()
            with sut("run the step"):
                out = f(*b.args(vals, ys), np.array(1e-3), np.ones(b.dim(vals)))
            if any(not np.array_equal(o, vals[i]) for i, o in zip(b.sampled, out)):
                return
        raise Violation("the NUTS step doesn't move")


@st.composite
def real_cases(draw):
    c = draw(cases(max_vars=2, families=LIGHT))
    c.update(step=draw(st.sampled_from([0.4, 0.8])), mass=draw(st.booleans()))
    return c


def label(c):
    m = c["model"]
    ls = [v["family"] for v in m["vars"]] + ["api=" + c["api"], "vars=%d" % len(m["vars"])]
    if any("rv" in p for v in m["vars"] for p in v["pars"]):
        ls.append("dependent parameters")
    if any(v["family"] in ("uniform", "triangular", "halfnormal") and "rv" in v["pars"][0] for v in m["vars"]):
        ls.append("random bounds")
    if len(c.get("sample", m["vars"])) < len(m["vars"]):
        ls.append("conditioning on realized latents")
    return ls


SUBS = [
    Sub(
        "density",
        cases(),
        density_check,
        quick=72,
        thorough=1600,
        shards=8,
        label=label,
        rule="a model of 1-4 continuous variables whose log-density and transforms were compared at 2 or more points",
    ),
    Sub(
        "real",
        real_cases(),
        real_check,
        quick=4,
        thorough=100,
        shards=4,
        label=label,
        weight=10,
        rule="a model of 1-2 continuous variables whose step with aehmc's kernel was run on at least 120 joint draws",
        shrink=6,
    ),
]
