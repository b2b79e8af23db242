"""C21: the sampler record lists the steps, stages and parameters truthfully.

`constructed`: for generated composed models, the recorded order is compared with
what each kernel's results depend on (by substitution and evaluation with the
generators in fixed states), and the parameters with the inputs the steps need.
`records`: hand-built records against a reference grouping.
"""
import dataclasses

import numpy as np
from hypothesis import strategies as st

import aesara
import aesara.tensor as at
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, graph_inputs
from aesara.tensor.random import RandomStream

from aemcmc.types import Sampler, SamplingStep
from vf.build import seeds
from vf.composed import any_models, label
from vf.core import Sub, Violation, sut
from vf.run_sampler import Built
from vf.scan import scan_order

ASSUMPTIONS = [
    "a kernel is an Op: variables updated by different applications of equal Ops are one stage",
    "the order between the variables that one application of a kernel updates jointly is not specified",
    "aehmc's NUTS kernel is replaced by a random-walk Metropolis kernel on the log-density that aemcmc builds",
]


@st.composite
def cases(draw):
    return dict(
        blocks=draw(any_models()),
        seed=draw(seeds),
        rev_obs=draw(st.booleans()),
    )


def reference_stages(sample_steps):
    ops, groups = [], []
    for rv, step in sample_steps.items():
        for i, op in enumerate(ops):
            if op == step.owner.op:
                groups[i].append(rv)
                break
        else:
            ops.append(step.owner.op)
            groups.append([rv])
    return ops, groups


def check_stages(sampler):
    ops, groups = reference_stages(sampler.sample_steps)
    got = list(sampler.stages.items())
    listed = [v for _, vs in got for v in vs]
    if len(listed) != len(set(listed)) or set(listed) != set(sampler.sample_steps):
        raise Violation(f"the stages list {listed} but the steps update {list(sampler.sample_steps)}")
    if [op for op, _ in got] != ops:
        raise Violation(f"the stages' kernels are {[op for op, _ in got]}, in scan order they are {ops}")
    if [list(vs) for _, vs in got] != groups:
        raise Violation(f"the stages' variables are {[list(vs) for _, vs in got]}, those of the kernels in scan order are {groups}")


def check(case, ctx):
    b = Built(case["blocks"], case["seed"], rev_obs=case["rev_obs"], compile_it=False)
    s, m = b.sampler, b.model
    check_stages(s)

    # The parameters are the inputs the steps need beyond the model's
    outs = list(s.sample_steps.values()) + list(s.updates.values())
    declared = set(m.ins.vars) | set(b.init.values()) | set(b.obs_vars.values())
    free = [v for v in graph_inputs(outs) if not isinstance(v, (Constant, SharedVariable)) and v not in declared]
    recorded = [v for vs in s.parameters.values() for v in vs]
    if len(set(recorded)) != len(recorded) or set(recorded) != set(free):
        raise Violation(f"the recorded parameters are {recorded}; the inputs that the steps need beyond the model's are {free}")
    for op, vs in s.parameters.items():
        if op not in s.stages:
            raise Violation(f"parameters are recorded for {op}, which is no stage's kernel")
        if len(vs) != 2 or vs[0].type.ndim != 0 or vs[1].type.ndim != 1:
            raise Violation(f"the parameters are not a scalar step size and a mass vector: {[v.type for v in vs]}")
    for kernel in scan_order(b, case["seed"], ctx):
        ks, tuned, run, redraw, theta, params = (getattr(kernel, a) for a in ("ks", "tuned", "run", "redraw", "theta", "params"))
        # Tuning parameters affect the variables they are recorded for
        rec = [p for op, vs in s.parameters.items() for p in vs if any(b.latents[k] in s.stages[op] for k in ks)]
        for p in rec:
            if p not in tuned:
                raise Violation(f"{p} is recorded as a parameter of the kernel of {ks}, which doesn't depend on it")
        if not rec and tuned:
            raise Violation(f"the kernel of {ks} uses {tuned}, which isn't recorded under it")
        if rec:
            i_mass = b.params.index(rec[1])
            d = len(params[i_mass])
            touched, seen = set(), {}
            for _ in range(25):
                redraw()
                with sut("run NUTS"):
                    base = run(theta, theta, params)
                for i in range(d):
                    ps = list(params)
                    ps[i_mass] = params[i_mass].copy()
                    ps[i_mass][i] *= 0.3
                    got = run(theta, theta, ps)
                    if not all(np.array_equal(x, z) for x, z in zip(base, got)):
                        touched.add(i)
                        for k, x, z in zip(ks, base, got):
                            seen.setdefault(k, np.zeros(np.shape(x), bool))
                            seen[k] |= np.asarray(x != z)
                if len(touched) == d and len(seen) == len(ks) and all(v.all() for v in seen.values()):
                    break
            else:
                raise Violation(f"of the {d} elements of the mass matrix only {sorted(touched)} have an effect, which reaches {seen}")
            for wrong in (d + 1, d - 1):
                if wrong > 1 or (wrong == 1 and d > 2):
                    ps = list(params)
                    ps[i_mass] = np.ones(wrong)
                    try:
                        run(theta, theta, ps)
                    except Exception:  # noqa: BLE001
                        continue
                    if wrong > 1:
                        raise Violation(f"a mass matrix of {wrong} elements is accepted for {d} degrees of freedom")


# Hand-built records


@st.composite
def record_cases(draw):
    n_ops = draw(st.integers(1, 5))
    nodes = draw(st.lists(st.tuples(st.integers(0, n_ops - 1)), min_size=0, max_size=7))
    sizes = draw(st.lists(st.integers(1, 4), min_size=n_ops, max_size=n_ops))
    kinds = draw(st.lists(st.sampled_from(["step", "step", "elemwise", "rv"]), min_size=n_ops, max_size=n_ops))
    total = sum(sizes[i[0]] if kinds[i[0]] == "step" else 1 for i in nodes)
    return dict(
        ops=[dict(kind=k, n=s) for k, s in zip(kinds, sizes)],
        nodes=[i[0] for i in nodes],
        order=draw(st.permutations(list(range(total)))),
        keep=draw(st.integers(0, 3)),
        updates=draw(st.booleans()),
        params=draw(st.booleans()),
    )


def record_check(case, ctx):
    srng = RandomStream(0)
    ops = []
    for o in case["ops"]:
        if o["kind"] == "step":
            x = at.vector()
            ops.append(SamplingStep([x], [x + j for j in range(o["n"])]))
        elif o["kind"] == "elemwise":
            ops.append([at.exp, at.sin, at.cos, at.sqrt][o["n"] - 1])
        else:
            ops.append([srng.normal, srng.gamma, srng.beta, srng.uniform][o["n"] - 1])
    outs = []
    for i in case["nodes"]:
        x = at.vector()
        if case["ops"][i]["kind"] == "step":
            res = ops[i](x, return_list=True)
        elif case["ops"][i]["kind"] == "elemwise":
            res = [ops[i](x)]
        else:
            res = [ops[i](x, x + 1.0)]
        outs += [(r, i, len(outs)) for r in res]
    picked = [outs[j] for j in case["order"]]
    if case["keep"] == 0:
        picked = picked[: len(picked) // 2]
    steps = {at.vector(f"rv{j}"): r for r, _, j in picked}
    upd, par = {at.scalar(): at.scalar()}, {object(): (at.scalar(),)}
    args = ([upd] if case["updates"] else []) + ([par] if case["updates"] and case["params"] else [])
    order = list(steps.items())
    with sut("make a sampler record"):
        s = Sampler(steps, *args)
        t = Sampler(steps)
    check_stages(s)
    if list(s.sample_steps.items()) != order:
        raise Violation("the record changed the order of the steps")
    if (s.updates is not upd) if case["updates"] else s.updates != {}:
        raise Violation(f"the record's updates are {s.updates}")
    if (s.parameters is not par) if len(args) == 2 else s.parameters != {}:
        raise Violation(f"the record's parameters are {s.parameters}")
    # Records don't share their defaults and can't be reassigned
    t.updates["x"] = 1
    t.parameters["x"] = 1
    u = Sampler({})
    if u.updates or u.parameters or len(u.stages):
        raise Violation("records share their default fields")
    for name in ("stages", "sample_steps", "parameters"):
        try:
            setattr(s, name, {})
        except dataclasses.FrozenInstanceError:
            continue
        raise Violation(f"the record's {name} can be reassigned")


SUBS = [
    Sub(
        "constructed",
        cases(),
        check,
        quick=56,
        thorough=900,
        shards=8,
        label=lambda c: label(c["blocks"]),
        rule="a generated model (1-4 blocks) whose sampler's kernels were each compiled with the other kernels' results as inputs",
        shrink=25,
    ),
    Sub(
        "records",
        record_cases(),
        record_check,
        quick=400,
        thorough=5000,
        shards=4,
        nontrivial=lambda c: len(set(c["nodes"])) > 1,
        label=lambda c: ["repeated kernel"] if len(set(c["nodes"])) < len(c["nodes"]) else [],
        rule="a record with at least two kernels",
    ),
]
