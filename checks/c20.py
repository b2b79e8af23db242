"""C20: model descriptions are internally consistent or rejected.

Generated descriptions (valid and invalid in one or several ways) against a
reference model of the documented attributes.
"""
import dataclasses

from hypothesis import strategies as st

import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from aemcmc.utils import ModelInfo
from vf.core import Sub, Violation, sut

ASSUMPTIONS = ["observed variables are listed once"]
NAMES = ["a", "b", "Y", "y", "mu", "x_1", "θ", "y ", "0", "A"]


@st.composite
def cases(draw):
    n = draw(st.integers(0, 5))
    n_det = draw(st.integers(0, 3))
    total = 2 * n + n_det
    pool = NAMES + [f"v{i}" for i in range(max(0, total - len(NAMES) + 3))]
    names = list(draw(st.permutations(pool))[:total])
    defects = draw(st.lists(st.sampled_from(["none", "empty", "same", "missing", "shared value"]), max_size=2)) if draw(st.booleans()) else []
    return dict(
        names=names,
        n=n,
        kinds=draw(st.lists(st.sampled_from(["rv", "rv", "vector", "scalar", "exp"]), min_size=n, max_size=n)),
        value_kinds=draw(st.lists(st.sampled_from(["clone", "shared", "input"]), min_size=n, max_size=n)),
        n_det=n_det,
        observed=draw(st.lists(st.integers(0, max(0, n - 1)), unique=True, max_size=n)) if n else [],
        # Tracked variables can also be ones of the model
        det_rvs=draw(st.lists(st.integers(0, max(0, n - 1)), unique=True, max_size=1)) if n and draw(st.integers(0, 3)) == 0 else [],
        updates=draw(st.sampled_from([None, 0, 1])),
        defects=[dict(kind=d, i=draw(st.integers(0, 50)), j=draw(st.integers(0, 50))) for d in defects],
    )


def check(case, ctx):
    n, srng = case["n"], RandomStream(0)
    names = list(case["names"])
    rvs, values = [], []
    for i in range(n):
        kind = case["kinds"][i]
        v = {"rv": lambda: srng.normal(0.0, 1.0), "vector": at.vector, "scalar": at.scalar, "exp": lambda: at.exp(srng.normal(0.0, 1.0))}[kind]()
        v.name = names[2 * i]
        vv = {"clone": v.clone, "shared": lambda: aesara.shared(1.0), "input": at.vector}[case["value_kinds"][i]]()
        vv.name = names[2 * i + 1]
        rvs.append(v)
        values.append(vv)
    dets = [at.scalar(names[2 * n + i]) + 1 for i in range(case["n_det"])]
    for i, d in enumerate(dets):
        d.name = names[2 * n + i]
    everything = rvs + values + dets
    observed = [rvs[i] for i in case["observed"]]
    bad = []
    extra = []
    for d in case["defects"]:
        if d["kind"] in ("none", "empty") and everything:
            everything[d["i"] % len(everything)].name = None if d["kind"] == "none" else ""
            bad.append("a variable has no name")
        elif d["kind"] == "same" and len(everything) > 1:
            a = d["i"] % len(everything)
            b = (a + 1 + d["j"] % (len(everything) - 1)) % len(everything)
            if everything[a].name:
                everything[b].name = everything[a].name
                bad.append("two variables share a name")
        elif d["kind"] == "missing":
            extra = [at.vector("observed without value")]
            bad.append("an observed variable has no value")
        elif d["kind"] == "shared value" and n > 1:
            a = d["i"] % n
            b = (a + 1 + d["j"] % (n - 1)) % n
            if values[b] is not values[a]:
                values[b] = values[a]
                bad.append("two variables share a value")
    all_names = [v.name for v in dict.fromkeys(rvs + values + dets)]
    bad = [b for b in bad if b not in ("two variables share a name", "a variable has no name")]
    if any(not x for x in all_names):
        bad.append("a variable has no name")
    if len(set(all_names)) < len(all_names):
        bad.append("two variables share a name")
    pos = case["defects"][0]["j"] % (len(observed) + 1) if case["defects"] else 0
    obs = tuple(observed[:pos] + extra + observed[pos:])
    det = tuple(dets + [rvs[i] for i in case["det_rvs"]])
    r2v = dict(zip(rvs, values))
    upd = {"none": 1} if case["updates"] else {}
    kw = dict(observed_rvs=obs, rvs_to_values=r2v)
    if det:
        kw["deterministic_vars"] = det
    if case["updates"] is not None:
        kw["updates"] = upd
    if bad:
        ctx.counters["invalid"] += 1
        try:
            ModelInfo(**kw)
        except Exception:  # noqa: BLE001
            return
        raise Violation(f"a description in which {' and '.join(sorted(set(bad)))} was accepted")
    ctx.counters["valid"] += 1
    with sut("make a model description"):
        m = ModelInfo(**kw)
        other = ModelInfo((), {})

    def expect(what, got, want):
        if type(got) is not type(want) or len(got) != len(want):
            raise Violation(f"{what} is {got} instead of {want}")
        if isinstance(want, dict):
            ok = list(got) == list(want) and all(got[k] is want[k] for k in want)
            ok = ok or (what == "names_to_vars" and set(got) == set(want) and all(got[k] is want[k] for k in want))
        else:
            ok = all(x is y for x, y in zip(got, want))
        if not ok:
            raise Violation(f"{what} is {got} instead of {want}")

    unobserved = tuple(v for v in rvs if v not in observed)
    expect("observed_rvs", m.observed_rvs, tuple(observed))
    expect("unobserved_rvs", m.unobserved_rvs, unobserved)
    expect("observed_values", m.observed_values, tuple(r2v[v] for v in observed))
    expect("unobserved_values", m.unobserved_values, tuple(r2v[v] for v in unobserved))
    expect("rvs_to_values", m.rvs_to_values, dict(zip(rvs, values)))
    expect("values_to_rvs", m.values_to_rvs, dict(zip(values, rvs)))
    expect("deterministic_vars", m.deterministic_vars, det)
    expect("names_to_vars", m.names_to_vars, {v.name: v for v in rvs + values + dets})
    if m.updates is not (upd if case["updates"] is not None else m.updates) or (case["updates"] is None and m.updates != {}):
        raise Violation(f"updates is {m.updates} instead of {upd}")
    m2 = ModelInfo(**{k: v for k, v in kw.items() if k != "updates"})
    m2.updates["x"] = 1
    if other.updates or ModelInfo((), {}).updates or (case["updates"] is None and m.updates):
        raise Violation("descriptions share their default updates")
    for name in ("unobserved_rvs", "rvs_to_values", "names_to_vars"):
        try:
            setattr(m, name, {})
        except dataclasses.FrozenInstanceError:
            continue
        raise Violation(f"{name} can be reassigned")


SUBS = [
    Sub(
        "descriptions",
        cases(),
        check,
        quick=1500,
        thorough=30000,
        shards=4,
        nontrivial=lambda c: c["n"] > 1,
        label=lambda c: ["defect " + d["kind"] for d in c["defects"]] + ["observed=%d of %d" % (len(c["observed"]), c["n"])],
        rule="a description of at least two variables",
    )
]
