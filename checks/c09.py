"""C09: Polya-Gamma variates follow PG(h, z).

Oracle: the exact Laplace transform and moments of the Polya-Gamma distribution
(bounded functionals exp(-t w) determine the distribution).
"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr

import aesara
import aesara.tensor as at
from aemcmc.dists import polyagamma
from aesara.tensor.random import RandomStream

from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds, unif
from vf.core import Sub, Violation, sut

ASSUMPTIONS = ["h in [0.02, 1e5], |z| up to 60 (20 for h above 6.5)", "the polyagamma package's generators are part of what is tested"]


def log_laplace(t, h, z):
    """log E[exp(-t w)], w ~ PG(h, z)."""

    def log_cosh(x):
        x = np.abs(x)
        return x + np.log1p(np.exp(-2 * x)) - np.log(2)

    return h * (log_cosh(z / 2) - log_cosh(np.sqrt(z**2 / 4 + t / 2)))


def mean_var(h, z):
    z = np.where(np.abs(z) < 1e-3, 1e-3, np.abs(z))
    m = h / (2 * z) * np.tanh(z / 2)
    # var = h / (4 z^3) (sinh(z) - z) sech^2(z / 2), written for large z
    v = h / (4 * z**3) * (2 * np.tanh(z / 2) - z / np.cosh(np.minimum(z, 700) / 2) ** 2)
    return m, v


def tolerances(h):
    """The errors, in standard deviations, that are put down to the documented
    approximations of the `polyagamma` package (measured with 2e6 draws)."""
    tol = dict.fromkeys(["m0.3", "m1", "m3", "s", "mean"], 3e-3)
    tol["var"] = 8e-3
    if np.any((h > 0.2) & (h < 1)):
        tol = {k: max(v, 0.016) for k, v in tol.items()}
    if np.any((h > 1) & (h < 8)):
        tol = {k: max(v, 0.035) for k, v in tol.items()}
    if np.any(h > 48):
        # Draws are normal
        tol = {k: max(v, {"m3": 0.01, "s": 0.06}.get(k, 0)) for k, v in tol.items()}
    return tol


@st.composite
def cases(draw):
    reach = draw(st.sampled_from(["mid", "mid", "mid", "mid", "mid", "small", "large"]))
    mid = [st.sampled_from([1.0, 1.0, 2.0, 0.5, 1.5, 10.0]), logu(0.2, 400)]
    h_el = dict(mid=st.one_of(*mid), small=st.one_of(logu(0.02, 0.2), *mid), large=st.one_of(logu(400, 1e5), *mid))[reach]
    z_el = st.one_of(st.sampled_from([0.0, 0.3, -0.3]), unif(-8, 8), unif(-60, 60))
    shape = tuple(draw(st.lists(st.sampled_from([1, 2, 3]), max_size=2)))
    h_shape = draw(st.sampled_from([(), shape, shape[1:]]))
    z_shape = draw(st.sampled_from([(), shape, tuple(1 for _ in shape)]))
    out = np.broadcast_shapes(h_shape, z_shape)
    size = draw(st.sampled_from([None, None, out, (2,) + out, (40,) + out]))
    h, z = draw(arr(h_el, h_shape)), draw(arr(z_el, z_shape))
    if reach == "small":
        size = None  # many draws of each element, because they're very skewed
    if np.max(h) > 6.5:
        # Excluded by construction: the listed finding D22 (see `LISTED`)
        z = np.clip(z, -20, 20).tolist()
    return dict(
        h=h,
        z=z,
        h_how=draw(st.sampled_from(PASSING + ["python", "int"])),
        z_how=draw(st.sampled_from(PASSING + ["python"])),
        size=size,
        rng=draw(st.sampled_from(["Generator", "Generator", "RandomState"])),
        floatX=draw(st.sampled_from(["float64", "float64", "float32"])),
        seed=draw(seeds),
    )


@st.composite
def many_cases(draw):
    """Scalars or a few elements, with enough draws to look at variances."""
    c = draw(cases())
    shape = np.broadcast_shapes(np.shape(c["h"]), np.shape(c["z"]))
    if np.prod(shape, initial=1) > 3:
        c["h"] = float(np.ravel(c["h"])[0])
        shape = np.shape(c["z"])
    if np.prod(shape, initial=1) > 3:
        c["z"] = float(np.ravel(c["z"])[0])
        shape = ()
    if np.min(c["h"]) >= 0.2 and draw(st.booleans()):
        c["h"] = np.minimum(np.asarray(c["h"]) * draw(st.sampled_from([8.0, 40.0])), 1e5).tolist()
    if np.max(c["h"]) > 6.5:
        c["z"] = np.clip(c["z"], -20, 20).tolist()
    return dict(c, many=4000, size=(4000,) + shape)


def check(case, ctx):
    with aesara.config.change_flags(floatX=case["floatX"]):
        _check(case, ctx)


def _check(case, ctx):
    ctor = np.random.default_rng if case["rng"] == "Generator" else np.random.RandomState
    ins = Inputs()
    h, z = np.array(case["h"], float), np.array(case["z"], float)
    if case["h_how"] == "int":
        h = np.maximum(np.round(h), 1)

    def make(seed):
        srng = RandomStream(seed, rng_ctor=ctor)
        ins = Inputs()
        hv = h if case["h_how"] == "python" else ins.give(h, "input" if case["h_how"] == "int" else case["h_how"], "h", dtype="int64" if case["h_how"] == "int" else "float64")
        zv = z if case["z_how"] == "python" else ins.give(z, case["z_how"], "z")
        if case["h_how"] == "python" and h.ndim == 0:
            hv = float(h)
        out = srng.gen(polyagamma, hv, zv, size=case["size"])
        return out, fn(ins, out)

    with sut("build the random variable"):
        var, f = make(case["seed"])
        _, f2 = make(case["seed"])
        _, f3 = make(case["seed"] + 1)
    shape = np.broadcast_shapes(h.shape, z.shape) if case["size"] is None else tuple(case["size"])
    hb, zb = np.broadcast_to(h, shape), np.broadcast_to(z, shape)

    if var.type.dtype != case["floatX"] or var.type.ndim != len(shape):
        raise Violation(f"the variable's type is {var.type}, the configured type is {case['floatX']} and the shape {shape}")

    with sut("draw"):
        a = [f() for _ in range(3)]
        b = [f2() for _ in range(3)]
        c = [f3() for _ in range(3)]
    for x in a:
        if np.shape(x) != shape or np.asarray(x).dtype != case["floatX"]:
            raise Violation(f"draw of shape {np.shape(x)} and type {np.asarray(x).dtype} instead of {shape} and {case['floatX']}")
    if not all(np.array_equal(x, y) for x, y in zip(a, b)):
        raise Violation("generators in the same state give different draws")
    # Single-precision draws can coincide
    few = 0.3 if case["floatX"] == "float32" else 0.0
    if np.mean([np.asarray(x) == np.asarray(y) for x, y in zip(a, c)]) > few:
        raise Violation("generators with different seeds give the same draws")
    if np.mean([np.asarray(x) == np.asarray(y) for x, y in [(a[0], a[1]), (a[1], a[2]), (a[0], a[2])]]) > few:
        raise Violation("successive draws are repeated: the generator isn't advanced")

    many = case.get("many")  # the leading axis only repeats the draws
    if many:
        hb, zb = hb[0], zb[0]
    shape = hb.shape
    m, v = mean_var(hb, zb)
    ts = np.array([0.3, 1.0, 3.0])
    # Scales at which exp(-t w) is sensitive: relative to the mean, and to the std. dev.
    sd = np.sqrt(v)
    tgrid = [("m%g" % k, k / m) for k in ts] + [("s", 1 / sd)]
    tol = tolerances(hb)

    def pv(n, stage):
        reps = int(np.ceil(n / max(1, int(np.prod(shape)))))
        reps = max(reps, 40)
        with sut("draw"):
            w = [np.asarray(f(), dtype=float) for _ in range(int(np.ceil(reps / many)) if many else reps)]
            w = np.concatenate(w) if many else np.stack(w)
            reps = len(w)
        if not np.all(np.isfinite(w)) or np.any(w <= 0):
            raise Violation("draws must be positive and finite")
        ps = {}
        zs = {}
        for nm, t in tgrid:
            l1, l2 = log_laplace(t, hb, zb), log_laplace(2 * t, hb, zb)
            # Centre at the mean for numerical stability
            x = np.exp(-t * w - l1) - 1
            var_x = np.exp(l2 - 2 * l1) - 1
            zs[nm] = x.mean(0) / np.sqrt(var_x)
        zs["mean"] = (w - m).mean(0) / sd
        if many and np.min(hb) >= 8:
            # The distribution is nearly normal
            q = ((w - m) / sd) ** 2 - 1
            zs["var"] = q.mean(0) / q.std(0)
        for nm, zz in zs.items():
            # Aggregate over elements, and look at the extreme ones.  A tolerance
            # covers the approximations that the generator uses.
            zz = zz.ravel()
            for what, d, k in (("", zz.mean(), reps * zz.size), (":first", zz[0], reps), (":last", zz[-1], reps)):
                ps[nm + what] = stats._two_sided(max(abs(d) - tol[nm], 0) * np.sqrt(k))
        x = (w - m) / sd
        r = np.tanh(x).reshape(reps, -1)
        r = (r - r.mean(0)) / np.maximum(r.std(0), 1e-12)
        if r.shape[1] > 1:
            ps["indep"] = stats._two_sided(np.mean(r[:, 0] * r[:, -1]) * np.sqrt(reps))
        ps["serial"] = stats._two_sided(np.mean(r[1:, 0] * r[:-1, 0]) * np.sqrt(reps - 1))
        return ps

    msg = stats.decide(pv, 40000 if many else 4000 if not ctx.thorough else 20000)
    if msg:
        raise Violation(f"draws don't follow PG(h, z): {msg}")


#: The inputs of finding D22: the polyagamma package's saddle point and normal
#: approximations break down for tilts beyond about 25 when h is 8 or more.
LISTED = [(10.0, 60.0), (20.0, -40.0), (49.0, 26.0), (100.0, 48.0)]


def check_listed(case, ctx):
    try:
        check(case, ctx)
    except Violation as e:
        if not ctx.finding("D22", "PG(h, z) draws are wrong for large tilts (e.g. h=10, z=60; h=100, z=48)"):
            raise


def label(c):
    h, z = np.ravel(c["h"]), np.ravel(c["z"])
    ls = ["rng:" + c["rng"], c["floatX"], "size" if c["size"] else "no size", "ndim=%d" % max(np.ndim(c["h"]), np.ndim(c["z"]))]
    ls += ["h<1"] * bool(np.any(h < 1)) + ["h=1"] * bool(np.any(h == 1)) + ["h>50"] * bool(np.any(h > 50))
    ls += ["h<0.2"] * bool(np.any(h < 0.2)) + ["h>400"] * bool(np.any(h > 400))
    ls += ["z<0"] * bool(np.any(z < 0)) + ["z=0"] * bool(np.any(z == 0)) + ["|z|>20"] * bool(np.any(np.abs(z) > 20))
    return ls


SUBS = [
    Sub(
        "distribution",
        cases(),
        check,
        quick=700,
        thorough=4000,
        shards=8,
        label=label,
        nontrivial=lambda c: True,
        rule="parameters x broadcast pattern x size x generator x float type, compared through its exact Laplace transform and mean with at least 4000 element draws",
    ),
    Sub(
        "many_draws",
        many_cases(),
        check,
        quick=160,
        thorough=2000,
        shards=8,
        label=label,
        nontrivial=lambda c: True,
        rule="as above, with at least 40000 draws of the elements, and their variance as well for h of 8 or more",
    ),
    Sub(
        "listed_large_tilts",
        st.sampled_from(LISTED).map(
            lambda hz: dict(h=hz[0], z=hz[1], h_how="const", z_how="const", size=None, rng="Generator", floatX="float64", seed=1)
        ),
        check_listed,
        quick=8,
        thorough=8,
        rule="the inputs of the listed finding",
    ),
]
