"""C17: the sampler intermediate representation preserves the model.

`models`: random programs; differential evaluation of the original and converted
graphs (parameters of every random variable given the same parents, and joint
draws from the same generator states).  `matching`: what pattern unification
finds in subsumed operations must recompute the operations' values.
"""
import numpy as np
from hypothesis import strategies as st

import aesara
import aesara.tensor as at
from aesara.compile.mode import Mode
from aesara.graph.basic import Variable, ancestors, clone_replace, equal_computations, graph_inputs
from aesara.graph.fg import FunctionGraph
from aesara.graph.rewriting.basic import in2out
from aesara.tensor.elemwise import Elemwise
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from etuples import etuple, etuplize
from unification import unify, var

from aemcmc.rewriting import (
    SubsumingElemwise,
    construct_ir_fgraph,
    expand_subsumptions,
    local_elemwise_dimshuffle_subsume,
)
from vf.build import seeds
from vf.core import Skip, Sub, Violation, sut
from vf.programs import Program, exprs, programs

BUILD_ERRORS = (ValueError, TypeError, IndexError, AssertionError)
PLAIN = Mode("py", None)
ASSUMPTIONS = ["random graphs of up to 5 random variables and expressions of depth up to 3 (5 for matching) over arrays of up to 2 dimensions"]


@st.composite
def cases(draw):
    spec = draw(programs())
    return dict(
        rvs=spec,
        seed=draw(seeds),
        # Which variables besides the last are observed, in which order, and how
        obs=draw(st.lists(st.integers(0, 4), max_size=2)),
        last=draw(st.booleans()),
        expand=draw(st.sampled_from([True, True, False])),
        twice=draw(st.booleans()),
    )


def same(a, b):
    return np.shape(a) == np.shape(b) and np.asarray(a).dtype == np.asarray(b).dtype and np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)


def evaluate(ins, outs, vals, mode=PLAIN):
    f = aesara.function(ins, outs, mode=mode, on_unused_input="ignore", no_default_updates=True)
    return f(*vals)


def params(rv):
    """The parameters and size of a random variable."""
    return list(rv.owner.inputs[3:]), rv.owner.inputs[1]


def check(case, ctx):
    srng = RandomStream(case["seed"])
    try:
        p = Program(case["rvs"], srng, case["seed"] % 1000)
    except BUILD_ERRORS as e:
        raise Skip from e
    n = len(p.rvs)
    obs = [i % n for i in case["obs"]]
    obs = [n - 1] + obs if case["last"] or not obs else obs
    obs = list(dict.fromkeys(obs))
    observed = {p.rvs[i]: p.rvs[i].clone() for i in obs}
    for v in observed.values():
        v.name = None
    anc = set(ancestors(list(observed)))
    want = [v for v in p.rvs if v in anc]

    # Reference values; invalid programs (shape mismatches) are not models
    rng = np.random.default_rng(case["seed"])
    sub = {}
    try:
        ref_draws = evaluate(p.in_vars, want, p.in_vals)
        # (Aesara's own rewrites fail on some graphs)
        ref_draws2 = evaluate(p.in_vars, want, p.in_vals, PLAIN if case["expand"] else None)
    except (ValueError, TypeError, IndexError, AssertionError) as e:
        raise Skip from e
    if not all(same(x, y) for x, y in zip(ref_draws, ref_draws2)):
        raise Skip
    if not all(np.all(np.isfinite(x)) and np.all(np.abs(x) < 1e8) for x in ref_draws):
        raise Skip

    def given(rvs, by):
        """Parameters and sizes of `rvs` with the variables replaced by values."""
        ins, outs, where = [], [], []
        for rv, key in rvs:
            for what, xs in zip(("parameter", "size"), (params(rv)[0], [params(rv)[1]])):
                for j, x in enumerate(xs):
                    if isinstance(x.type, at.type.TensorType):
                        outs.append(x)
                        where.append((key, what, j))
        new = {rv: rv.type.filter_variable(at.as_tensor(np.asarray(val, rv.type.dtype))) for rv, val in by.items()}
        outs = clone_replace(outs, new) if new else outs
        return dict(zip(where, evaluate(p.in_vars + ins, outs, p.in_vals)))

    # Values of all variables, not just what their prior would produce
    vals = [np.asarray(d + rng.integers(0, 3, size=np.shape(d)), d.dtype) for d in ref_draws]
    ref = given([(v, v.name) for v in want], dict(zip(want, vals)))

    with sut("convert the model"):
        fg, new_obs, memo, new_to_old = construct_ir_fgraph(dict(observed))
        if case["expand"]:
            expand_subsumptions.rewrite(fg)
    if case["expand"] and any(isinstance(node.op, SubsumingElemwise) for node in fg.apply_nodes):
        raise Violation("subsumed operations are left after the expansion")

    # Structure
    outs = list(fg.outputs)
    if case["expand"]:
        with sut("map the variables"):
            old = [new_to_old[v] for v in outs]
    else:
        old = [new_to_old.get(v) for v in outs]
    if len(old) != len(want) or set(old) != set(want):
        raise Violation(f"the converted model's variables are {[str(v) for v in old]}, the model's are {[str(v) for v in want]}")
    if set(new_to_old) != set(outs):
        raise Violation("the map to the original variables has keys which are not the new ones")
    new = {o: v for v, o in zip(outs, old)}
    for v, o in zip(outs, old):
        if v.owner is None or not isinstance(v.owner.op, RandomVariable) or type(v.owner.op) is not type(o.owner.op):
            raise Violation(f"{o} ({o.owner.op}) became {v.owner}")
        if v.type.ndim != o.type.ndim or v.type.dtype != o.type.dtype or v.name != o.name:
            raise Violation(f"{o} ({o.type}) became {v} ({v.type})")
        if v is o:
            raise Violation(f"{o} was not cloned")
    for i, v in enumerate(outs):
        mine = set(ancestors(v.owner.inputs))
        late = [w for w in outs[i:] if w in mine]
        if late:
            raise Violation(f"{v} precedes its parents {late}")
        foreign = [w for w in mine if w.owner and isinstance(w.owner.op, RandomVariable) and w is w.owner.outputs[1] and w not in outs]
        if foreign:
            raise Violation(f"{v} depends on random variables that are not the converted model's: {foreign}")
    if {new[k]: v for k, v in observed.items()} != dict(new_obs):
        raise Violation(f"observed variables and values {observed} became {new_obs}")

    # The distributions given the parents
    if case["expand"]:
        with sut("evaluate the converted parameters"):
            got = given([(new[v], v.name) for v in want], {new[v]: val for v, val in zip(want, vals)})
        for k in ref:
            if k not in got and k[1] == "size":
                continue
            a, b = ref[k], got[k]
            if k[1] == "size":
                if not np.array_equal(a, b):
                    raise Violation(f"the size of {k[0]} became {b} instead of {a}")
            elif not (np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)):
                raise Violation(f"given the same parents, parameter {k[2]} of {k[0]} became {b} instead of {a}")
    # Joint draws
    with sut("draw from the converted model"):
        draws = evaluate(p.in_vars, [new[v] for v in want], p.in_vals, PLAIN if case["expand"] else None)
    for v, a, b in zip(want, ref_draws, draws):
        if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-6, atol=1e-8, equal_nan=True):
            raise Violation(f"with the same generator states, {v} became {b} instead of {a}")
    ctx.counters["rvs"] += len(want)

    # The original is as it was
    again = evaluate(p.in_vars, want, p.in_vals)
    if not all(same(a, b) for a, b in zip(ref_draws, again)):
        raise Violation("the conversion changed the original model")
    if case["twice"]:
        with sut("convert the model again"):
            fg2, *_ = construct_ir_fgraph(dict(observed))
            if case["expand"]:
                expand_subsumptions.rewrite(fg2)
        if case["expand"] and not equal_computations(list(fg.outputs), list(fg2.outputs)):
            draws2 = evaluate(p.in_vars, list(fg2.outputs), p.in_vals)
            for v, a, b in zip(fg.outputs, [draws[want.index(o)] for o in old], draws2):
                if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-6, atol=1e-8, equal_nan=True):
                    raise Violation(f"another conversion of the model gives other draws of {v}")


# Matching

MATCH = {"add": at.add, "mul": at.mul, "sub": at.sub, "div": at.true_div, "pow": at.pow, "neg": at.neg, "sigmoid": at.sigmoid, "exp": at.exp}


@st.composite
def match_cases(draw):
    op = draw(st.sampled_from(["mul", "add", "sub", "div", "pow", "neg", "sigmoid", "exp", "mul", "mul"]))
    n = 1 if op in ("neg", "sigmoid", "exp") else draw(st.sampled_from([2, 2, 3])) if op in ("mul", "add") else 2
    return dict(
        op=op,
        # Constants have a special role in subsumption
        n_pattern=n if draw(st.booleans()) else draw(st.integers(1, n)),
        args=[["const", draw(st.sampled_from([2.0, -1.0, 0.5])), draw(st.sampled_from([[], [3]]))] if draw(st.integers(0, 3)) == 0 else exprs(draw, draw(st.integers(0, 3)), 2) for _ in range(n)],
        wrap=draw(st.sampled_from(["", "row", "x0", "x0x", "x10", "xx10", "x10"])),
        pattern=draw(st.sampled_from(["lvars", "lvars", "head", "first", "const", "other", "same"])),
        seed=draw(seeds),
    )


def wrapped(x, how):
    if how == "row" and x.ndim == 1:
        return x[None, :]
    if how == "x0" and x.ndim == 2:
        return x[None]
    if how == "x0x" and x.ndim == 1:
        return x[None, :, None]
    if how == "x10" and x.ndim == 2:
        return x.dimshuffle("x", 1, 0)
    if how == "xx10" and x.ndim == 2:
        return x.dimshuffle("x", "x", 1, 0)
    return x


def match_check(case, ctx):
    srng = RandomStream(case["seed"])
    p = Program([dict(family="normal", pars=[["in", "s"], ["const", 1.0, []]], size=None), dict(family="normal", pars=[["in", "v"], ["const", 1.0, []]], size=None)], srng, case["seed"] % 1000)
    f = MATCH[case["op"]]
    try:
        args = [at.as_tensor(p.expr(a)) for a in case["args"]]
    except BUILD_ERRORS as e:
        raise Skip from e
    args[0] = wrapped(args[0], case["wrap"])
    e = f(*args)
    rvs = p.rvs
    vals = [np.asarray(0.3), np.array([0.2, -1.0, 0.7])]
    rv_ins = [v.type() for v in rvs]

    def value(y):
        # Shared variables and inputs keep their values; variables are replaced
        reps = {v: i for v, i in zip(rvs, rv_ins)}
        (y,) = clone_replace([y], reps)
        return evaluate(p.in_vars + rv_ins, y, list(p.in_vals) + vals)

    try:
        with np.errstate(all="ignore"):
            ref = value(e)
    except (ValueError, TypeError, IndexError) as exc:
        raise Skip from exc
    if not np.all(np.isfinite(ref)):
        raise Skip
    with sut("subsume the arguments' broadcasts"):
        fg = FunctionGraph(outputs=[e], clone=False, copy_inputs=False, copy_orphans=False)
        in2out(local_elemwise_dimshuffle_subsume).rewrite(fg)
        z = fg.outputs[0]
    subsumed = z.owner is not None and isinstance(z.owner.op, SubsumingElemwise)
    ctx.counters["subsumed" if subsumed else "plain"] += 1

    # What a pattern finds recomputes the value
    n = case["n_pattern"]
    lvs = [var() for _ in range(n)]
    head = var()
    wrong = {"add": at.mul, "mul": at.add, "sub": at.add, "div": at.mul, "pow": at.true_div, "neg": at.exp, "sigmoid": at.neg, "exp": at.sigmoid}[case["op"]]
    z_args = list(z.owner.inputs)
    if not z_args:
        raise Skip
    pattern = {
        "lvars": lambda: etuple(etuplize(f), *lvs),
        "head": lambda: etuple(head, *lvs),
        "first": lambda: etuple(etuplize(f), z_args[0], *lvs[1:]),
        "const": lambda: etuple(etuplize(f), at.as_tensor(2.0), *lvs[1:]),
        "other": lambda: etuple(etuplize(wrong), *lvs),
        "same": lambda: etuple(etuplize(f), lvs[0], *[lvs[0]] * (n - 1)),
    }[case["pattern"]]()
    with sut("match"):
        s = unify(etuplize(z), pattern, {})
        s2 = unify(pattern, etuplize(z), {})
    if (s is False) != (s2 is False):
        raise Violation(f"matching is not symmetric: {s} and {s2}")
    if s is False:
        plain_args = all(not isinstance(a, at.TensorConstant) for a in z_args) and len(z_args) == n == len(args)
        if case["pattern"] == "lvars" and plain_args and not (subsumed and z.owner.op.has_constants):
            raise Violation(f"the pattern of {f} on {n} arguments doesn't match {aesara.pprint(e)}")
        return
    ctx.counters["matched"] += 1
    if case["pattern"] == "other":
        raise Violation(f"the pattern of {wrong} matches {f}")
    found = [s[v] if v in s else None for v in lvs]
    if case["pattern"] == "first":
        found[0] = z_args[0]
    elif case["pattern"] == "const":
        found[0] = at.as_tensor(2.0)
    elif case["pattern"] == "same":
        found = [found[0]] * n
    found = [getattr(x, "evaled_obj", x) for x in found]
    if not all(isinstance(x, Variable) for x in found):
        raise Violation(f"matched arguments are not variables: {found}")
    with sut("recompute the matched operation"):
        if case["pattern"] == "head":
            op = getattr(s[head], "evaled_obj", s[head])
            y = op(*found)
        else:
            y = f(*found) if n > 1 or len(args) == 1 else found[0]
        fgy = FunctionGraph(outputs=[y], clone=False, copy_inputs=False, copy_orphans=False)
        expand_subsumptions.rewrite(fgy)
        got = value(fgy.outputs[0])
    # (broadcast dimensions that the operation's other arguments added may be missing)
    try:
        ok = np.allclose(np.broadcast_to(got, ref.shape), ref, rtol=1e-7, atol=1e-9)
    except ValueError:
        ok = False
    if not ok:
        raise Violation(f"the arguments matched in {aesara.pprint(e)} give {got} instead of {ref}")
    # And so does the expansion
    with sut("expand"):
        expand_subsumptions.rewrite(fg)
        got = value(fg.outputs[0])
    if not same(got, ref):
        raise Violation(f"{aesara.pprint(e)} became {got} instead of {ref}")


@st.composite
def pair_cases(draw):
    """An operation, and the same one or one that differs in one respect."""
    c = draw(match_cases())
    other = draw(st.sampled_from(["same", "op", "wrap", "arg", "arg", "const", "const"]))
    d = dict(op=c["op"], wrap=c["wrap"], args=list(c["args"]))
    i = draw(st.integers(0, len(d["args"]) - 1))
    if other == "op" and len(d["args"]) == 2:
        d["op"] = draw(st.sampled_from(["mul", "add", "sub", "div", "pow"]))
    elif other == "wrap":
        d["wrap"] = draw(st.sampled_from(["", "row", "x0", "x0x", "x10", "xx10"]))
    elif other == "arg":
        d["args"][i] = exprs(draw, draw(st.integers(0, 2)), 2)
    elif other == "const":
        for x in (c, d):
            x["args"][i] = ["const", draw(st.sampled_from([2.0, -1.0, 0.5])), draw(st.sampled_from([[], [3], [3, 3], [3, 3]]))]
    return dict(a=dict(op=c["op"], wrap=c["wrap"], args=c["args"]), b=d, graphs=draw(st.booleans()), seed=c["seed"])


def pair_check(case, ctx):
    """Graphs without logic variables match only if they compute the same."""
    srng = RandomStream(case["seed"])
    p = Program([dict(family="normal", pars=[["in", "s"], ["const", 1.0, []]], size=None), dict(family="normal", pars=[["in", "v"], ["const", 1.0, []]], size=None)], srng, case["seed"] % 1000)
    rv_ins = [v.type() for v in p.rvs]
    vals = [np.asarray(0.3), np.array([0.2, -1.0, 0.7])]
    zs, refs = [], []
    for d in (case["a"], case["b"]):
        try:
            args = [at.as_tensor(p.expr(a)) for a in d["args"]]
            args[0] = wrapped(args[0], d["wrap"])
            e = MATCH[d["op"]](*args)
            with np.errstate(all="ignore"):
                refs.append(evaluate(p.in_vars + rv_ins, clone_replace([e], dict(zip(p.rvs, rv_ins)))[0], list(p.in_vals) + vals))
        except (*BUILD_ERRORS,) as exc:
            raise Skip from exc
        with sut("subsume the arguments' broadcasts"):
            fg = FunctionGraph(outputs=[e], clone=False, copy_inputs=False, copy_orphans=False)
            in2out(local_elemwise_dimshuffle_subsume).rewrite(fg)
            zs.append(fg.outputs[0])
    ctx.counters["subsumed"] += sum(z.owner is not None and isinstance(z.owner.op, SubsumingElemwise) for z in zs)
    u, v = zs if case["graphs"] else [etuplize(z) if z.owner else z for z in zs]
    with sut("match"):
        results = unify(u, v, {}), unify(v, u, {})
        itself = unify(u, u, {})
    if (results[0] is False) != (results[1] is False):
        raise Violation(f"matching is not symmetric: {results}")
    if itself is False:
        raise Violation(f"{aesara.pprint(zs[0])} doesn't match itself")
    if results[0] is False:
        return
    ctx.counters["matched"] += 1
    try:
        a, b = np.broadcast_arrays(*refs)
        ok = np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)
    except ValueError:
        ok = False
    if not ok:
        raise Violation(f"{case['a']} matches {case['b']}, but the values are {refs[0]} and {refs[1]}")


SUBS = [
    Sub(
        "models",
        cases(),
        check,
        quick=400,
        thorough=8000,
        shards=8,
        nontrivial=lambda c: len(c["rvs"]) > 1,
        label=lambda c: ["rvs=%d" % len(c["rvs"])] + [r["family"] for r in c["rvs"]] + (["several observed"] if c["obs"] else []),
        rule="a valid model of at least two random variables",
    ),
    Sub(
        "matching",
        match_cases(),
        match_check,
        quick=800,
        thorough=15000,
        shards=8,
        label=lambda c: [c["op"], c["pattern"]],
        rule="a valid elementwise operation",
    ),
    Sub(
        "pairs",
        pair_cases(),
        pair_check,
        quick=600,
        thorough=15000,
        shards=8,
        label=lambda c: [c["a"]["op"], "graphs" if c["graphs"] else "expressions"],
        rule="two valid elementwise operations that differ in at most one respect",
    ),
]
