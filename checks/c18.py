"""C18: distribution-rewriting relations preserve the joint distribution.

`location_scale` and `invgamma`: the rewritten variable, drawn jointly with its
parameters, is transformed by the exact CDF given the parameters; the results must
be uniform and independent over all elements.  `outside`: the relations don't
apply to other distributions.
"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

import aesara
import aesara.tensor as at
from aesara.graph.fg import FunctionGraph
from aesara.tensor.random import RandomStream

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from aesara.graph.rewriting.kanren import KanrenRelationSub

from aemcmc.transforms import invgamma_exponential, location_scale_transform
from vf import stats
from vf.build import PASSING, Inputs, logu, seeds, unif
from vf.core import Skip, Sub, Violation, sut

ASSUMPTIONS = ["parameters of up to two dimensions with at most 12 elements; scales in [0.01, 100]"]

FAMILIES = {"normal": ss.norm, "cauchy": ss.cauchy, "gumbel": ss.gumbel_r, "laplace": ss.laplace, "logistic": ss.logistic}
SHAPES = [[], [], [3], [1], [2, 3], [2, 1], [1, 3]]


@st.composite
def parameter(draw, kind):
    how = draw(st.sampled_from(PASSING + ["rv"]))
    shape = draw(st.sampled_from(SHAPES))
    return dict(how=how, shape=shape, base=draw(unif(-5, 5) if kind == "real" else logu(0.01, 100)), spread=draw(st.booleans()))


@st.composite
def sizes(draw):
    return draw(st.sampled_from(["none", "none", "const", "const", "symbolic", "scalar", "vector"]))


@st.composite
def ls_cases(draw):
    return dict(
        family=draw(st.sampled_from(sorted(FAMILIES))),
        loc=draw(parameter("real")),
        scale=draw(parameter("pos")),
        size=draw(sizes()),
        replicate=draw(st.booleans()),
        observed=draw(st.booleans()),
        seed=draw(seeds),
    )


class Case:
    """The variable, its parameters' variables, and compiled joint draws of them."""

    def __init__(self, seed):
        self.ins = Inputs()
        self.srng = RandomStream(seed)
        self.pars = []

    def param(self, p, kind, name):
        shape = tuple(p["shape"])
        if p["how"] == "rv":
            v = self.srng.normal(p["base"], 1.0, size=shape, name=name) if kind == "real" else self.srng.lognormal(np.log(p["base"]), 0.5, size=shape, name=name)
        else:
            n = int(np.prod(shape)) if shape else 1
            k = np.arange(n).reshape(shape) if p["spread"] else np.zeros(shape)
            v = self.ins.give(p["base"] + 7.0 * k if kind == "real" else p["base"] * 3.0**k, p["how"], name)
        self.pars.append(v)
        return v

    def size(self, how, shape, replicate):
        """A `size` argument of the given kind and its value."""
        if how == "none":
            return None, tuple(shape)
        val = ((2,) if replicate and len(shape) < 3 else ()) + tuple(shape)
        if not val:
            val = (3,) if replicate else ()
        if how == "scalar" and len(val) == 1:
            return self.ins.give(val[0], "input", "n", dtype="int64"), val
        if how == "vector" and val:
            v = at.tensor("int64", shape=(len(val),), name="size")
            return self.ins.add(v, np.array(val)), val
        if how == "symbolic":
            return tuple(self.ins.give(n, "input", f"n{i}", dtype="int64") if i % 2 == 0 else n for i, n in enumerate(val)), val
        return val, val


def rewritten(relation, rv, other=None):
    """Apply a relation to a variable in a graph with another variable that depends on it."""
    with sut("apply the relation"):
        fg = FunctionGraph(outputs=[rv] if other is None else [other], clone=False, copy_inputs=False, copy_orphans=False)
        res = KanrenRelationSub(relation).transform(fg, rv.owner)
        if not res:
            return None
        new = dict(zip(rv.owner.outputs, res)) if not isinstance(res, dict) else res
        if len(res) == 1:
            new = {rv: res[0]}
        return new[rv]


def joint(case, c, rv, new, shape, cdf, ctx, known=None, n1=400, n2=8):
    if new.type.dtype != rv.type.dtype or new.type.ndim != rv.type.ndim:
        raise Violation(f"a variable of type {rv.type} became one of type {new.type}")
    if not rv.type.is_super(new.type) and any(a is not None and b is not None and a != b for a, b in zip(rv.type.shape, new.type.shape)):
        raise Violation(f"a variable of type {rv.type} became one of type {new.type}")
    outs = [new, *c.pars]
    upd = {}
    with sut("compile the rewritten variable"):
        if case.get("observed"):
            # Replaced within a graph that uses the original and its parameters
            y = at.exp(-rv) + c.pars[0]
            fg = FunctionGraph(outputs=[y, rv, *c.pars], clone=False, copy_inputs=False, copy_orphans=False)
            fg.replace(rv, new, import_missing=True, reason="relation")
            outs = list(fg.outputs[1:])
        f = aesara.function(c.ins.vars, outs, updates=upd, on_unused_input="ignore")

    def pvals(n, stage):
        rows, pars = [], []
        for _ in range(n):
            with sut("draw the rewritten variable"):
                x, *ps = f(*c.ins.vals)
            if np.shape(x) != tuple(shape):
                raise Violation(f"a variable of shape {tuple(shape)} became one of shape {np.shape(x)}")
            if not np.all(np.isfinite(x)):
                raise Violation(f"non-finite draws {x} given {ps}")
            rows.append(np.asarray(cdf(np.asarray(x), *ps)).ravel())
        u = np.clip(np.array(rows), 0, 1)
        ps = {}
        for j in range(u.shape[1]):
            ps.update(stats.uniformity(u[:, j], f"element {j} "))
            ps.update(stats.uncorrelated(u[:-1, j], u[1:, j], f"element {j} with the next draw's"))
            for k in range(max(0, j - 3), j):
                ps.update(stats.uncorrelated(u[:, j], u[:, k], f"elements {k} and {j}"))
        ps.update(stats.uniformity(u, "all elements ") if u.size > n and False else {})
        return ps

    if int(np.prod(shape)) == 0:
        f(*c.ins.vals)
        return
    ctx.counters["draws"] += n1
    msg = stats.decide(pvals, n1, grow=n2)
    if msg:
        raise Violation(f"the rewritten variable doesn't have the original's distribution: {msg}")


def ls_check(case, ctx):
    c = Case(case["seed"])
    loc, scale = c.param(case["loc"], "real", "loc"), c.param(case["scale"], "pos", "scale")
    try:
        shape = np.broadcast_shapes(tuple(case["loc"]["shape"]), tuple(case["scale"]["shape"]))
    except ValueError as e:
        raise Skip from e
    size, shape = c.size(case["size"], shape, case["replicate"])
    try:
        rv = getattr(c.srng, case["family"])(loc, scale, size=size, name="x")
        f = aesara.function(c.ins.vars, rv.shape, on_unused_input="ignore")
        assert tuple(f(*c.ins.vals)) == tuple(shape)
    except (ValueError, TypeError) as e:
        raise Skip from e
    new = rewritten(location_scale_transform, rv)
    if new is None:
        raise Violation(f"the relation doesn't apply to {case['family']}")
    # The parameters were lifted out of the random variable
    from aesara.graph.basic import ancestors
    from aesara.tensor.random.op import RandomVariable

    for v in ancestors([new]):
        if v.owner is not None and v.owner.op == rv.owner.op and v.owner not in [p.owner for p in c.pars] and v.owner.inputs[0] is rv.owner.inputs[0]:
            for p in c.pars:
                if p in ancestors(v.owner.inputs[3:]) and p.owner is not None and isinstance(p.owner.op, RandomVariable):
                    raise Violation(f"{p} is still a parameter of the random variable")
    joint(case, c, rv, new, shape, lambda x, a, b: FAMILIES[case["family"]].cdf((x - a) / b), ctx)


@st.composite
def ig_cases(draw):
    return dict(
        a=draw(st.sampled_from(["float", "int", "const", "array", "array2", "float32"])),
        c=draw(parameter("pos")),
        size=draw(sizes()),
        replicate=draw(st.booleans()),
        observed=draw(st.booleans()),
        unit=draw(st.sampled_from([True, True, True, False])),
        seed=draw(seeds),
    )


ONES = {"float": 1.0, "int": 1, "const": at.as_tensor(1.0), "array": np.ones(3), "array2": np.ones((2, 1)), "float32": np.float32(1.0)}


def ig_check(case, ctx):
    c = Case(case["seed"])
    p = dict(case["c"])
    if case["unit"]:
        p.update(base=1.0, spread=False, how="const" if p["how"] == "rv" else p["how"])
    par = c.param(p, "pos", "c")
    a = ONES[case["a"]]
    ashape = a.data.shape if hasattr(a, "data") and hasattr(a, "type") else np.shape(a)
    try:
        shape = np.broadcast_shapes(ashape, tuple(p["shape"]))
    except ValueError as e:
        raise Skip from e
    size, shape = c.size(case["size"], shape, case["replicate"])
    try:
        rv = c.srng.invgamma(a, par, size=size, name="x")
        f = aesara.function(c.ins.vars, rv.shape, on_unused_input="ignore")
        assert tuple(f(*c.ins.vals)) == tuple(shape)
    except (ValueError, TypeError) as e:
        raise Skip from e
    new = rewritten(invgamma_exponential, rv)
    if new is None:
        raise Violation("the relation doesn't apply to an inverse-gamma with shape parameter one")
    try:
        joint(case, c, rv, new, shape, lambda x, s: ss.invgamma.cdf(x, 1.0, scale=s), ctx)
    except Violation as e:
        if "have the original's distribution" not in str(e) or case["unit"]:
            raise
        # The listed finding: exactly the distribution with the inverse scale
        joint(case, c, rv, new, shape, lambda x, s: ss.invgamma.cdf(x, 1.0, scale=1 / s), ctx)
        if not ctx.finding("D16", "the inverse-gamma/exponential relation uses the scale c as the exponential's scale"):
            raise


# Other distributions

OTHERS = {
    "gamma": (2.0, 3.0), "beta": (2.0, 3.0), "halfnormal": (0.5, 2.0), "halfcauchy": (0.5, 2.0), "lognormal": (0.5, 2.0), "uniform": (0.0, 2.0),
    "pareto": (2.0, 3.0), "weibull": (2.0,), "exponential": (2.0,), "poisson": (2.0,), "bernoulli": (0.3,), "binomial": (4, 0.3), "nbinom": (4, 0.3),
    "wald": (1.0, 2.0), "vonmises": (0.5, 2.0), "triangular": (-1.0, 0.5, 2.0), "chisquare": (3.0,), "geometric": (0.3,), "betabinom": (4, 1.0, 2.0), "invgamma": (2.0, 3.0),
}


@st.composite
def out_cases(draw):
    return dict(
        family=draw(st.sampled_from(sorted(OTHERS) + ["invgamma"] * 12)),
        how=draw(st.sampled_from(PASSING)),
        a=draw(st.sampled_from([2.0, 0.5, 1.0000001, 3.0, 0.999, [1.0, 2.0], [2.0, 1.0], [1.0, 1.0, 1.5], [[1.0, 1.0], [1.0, 2.0]], 1.5])),
        size=draw(st.sampled_from([None, (2,), (3, 2)])),
        seed=draw(seeds),
    )


def out_check(case, ctx):
    c = Case(case["seed"])
    fam = case["family"]
    if not hasattr(c.srng, fam):
        raise Skip
    try:
        dist = getattr(c.srng, fam)
    except AttributeError as e:
        raise Skip from e
    vals = list(OTHERS[fam])
    if fam == "invgamma":
        vals[0] = case["a"]
    pars = [c.ins.give(v, case["how"], f"p{i}", dtype="int64" if isinstance(v, int) else "float64") for i, v in enumerate(vals)]
    try:
        rv = dist(*pars, size=case["size"] if np.ndim(vals[0]) == 0 else None)
    except (ValueError, TypeError) as e:
        raise Skip from e
    for name, rel in (("location-scale", location_scale_transform), ("inverse-gamma", invgamma_exponential)):
        if rewritten(rel, rv) is not None:
            raise Violation(f"the {name} relation applies to {fam} with parameters {vals}")


SUBS = [
    Sub("location_scale", ls_cases(), ls_check, quick=240, thorough=3000, shards=8, label=lambda c: [c["family"], "size " + c["size"], "loc " + c["loc"]["how"], "scale " + c["scale"]["how"]], rule="a location-scale variable drawn 400 times after rewriting"),
    Sub("invgamma", ig_cases(), ig_check, quick=104, thorough=1500, shards=8, label=lambda c: [c["a"], "size " + c["size"], "c=1" if c["unit"] else "c other"], rule="an inverse-gamma variable drawn 400 times after rewriting"),
    Sub("outside", out_cases(), out_check, quick=100, thorough=1000, shards=2, label=lambda c: [c["family"]], rule="a variable of another distribution, to which both relations were applied"),
]
