"""What the checks of the two logistic regression steps (C02, C03) share."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import expit, gammaln

from checks.c07 import design
from vf import stats
from vf.build import arr, logu, seeds, units
from vf.core import Skip, Violation, sut
from vf.posterior import exact_draws, invariance_stats


def physical(case):
    """The regression in its own units: coefficients are divided by the returned factors."""
    d = 10.0 ** np.array(case["units"])
    s = np.array(case["scale"], float)
    return (
        dict(
            case,
            X=(np.array(case["X"], float) * d).tolist(),
            scale=(s / (d if s.shape == d.shape else d[0])).tolist(),
        ),
        d,
    )


def in_units(step, d):
    return lambda b: np.asarray(step(b / d)) * d


@st.composite
def regression(draw, kind):
    # Wide priors: the posterior reaches large linear predictors
    wide = kind == "bernoulli" and draw(st.integers(0, 3)) == 3
    X = draw(design(max_n=9, max_p=2 if wide else 4))
    n, p = len(X), len(X[0])
    scale = draw(st.sampled_from(["vector", "scalar", "vector", "len1"]))
    s_shape = {"scalar": (), "vector": (p,), "len1": (1,)}[scale]
    case = dict(
        X=X,
        # Small and large designs
        x_scale=draw(st.sampled_from([1.0, 1.0, 0.3, 2.0])),
        scale=draw(arr(logu(5, 80) if wide else logu(0.1, 5), s_shape)),
        # The units of the covariates (powers of ten; the posterior is equivariant)
        units=draw(units(p, scale == "vector")),
        seed=draw(seeds),
    )
    if kind == "bernoulli":
        y = st.integers(0, 1)
        if draw(st.integers(0, 5)) == 0:
            y = st.just(draw(st.integers(0, 1)))
    else:
        y = st.sampled_from([0, 0, 1, 2, 3, 7, 20, 300] if draw(st.booleans()) else [0, 1, 2, 3, 5])
        if draw(st.integers(0, 5)) == 0:
            y = st.just(0)
        case["h"] = draw(st.one_of(st.sampled_from([1.0, 0.5]), logu(0.1, 50), logu(0.1, 50), logu(0.005, 2000)))
    case["y"] = draw(arr(y, (n,)))
    return case


def unpack(case):
    X = np.array(case["X"], float) * case["x_scale"]
    y = np.array(case["y"])
    s = np.broadcast_to(np.array(case["scale"], float), (X.shape[1],))
    return X, y, s


def logpost(case):
    """The log-posterior (up to a constant), for a batch of coefficient vectors.

    Bernoulli: y = 1 has probability sigmoid(X beta).
    Negative binomial: proportional to p^h (1 - p)^y with p = sigmoid(-X beta).
    """
    X, y, s = unpack(case)
    h = case.get("h")

    def bern(b):
        eta = b @ X.T
        return (y * eta - np.logaddexp(0, eta)).sum(1) - 0.5 * ((b / s) ** 2).sum(1)

    def nb(b):
        eta = b @ X.T
        return (y * eta - (y + h) * np.logaddexp(0, eta)).sum(1) - 0.5 * ((b / s) ** 2).sum(1)

    return bern if h is None else nb


def give_y(ins, Y, y, how):
    """The observed values, in the forms in which they can be given."""
    import aesara
    import aesara.tensor as at

    if how == "clone":
        return ins.add(Y.clone(), y)
    if how == "const":
        return at.as_tensor(y)
    if how == "shared":
        return aesara.shared(y, name="y")
    assert how == "lvector", how
    return ins.add(at.lvector("y"), y)


Y_HOW = ["clone", "clone", "lvector", "const", "shared"]


def minus_dot(X, beta, form):
    """The ways to write minus the linear predictor that have the same canonical form."""
    import aesara.tensor as at

    if form == "-(X@b)":
        return -(X @ beta)
    assert form == "-dot", form
    return -at.dot(X, beta)


# NOTE: other forms (e.g. `-1.0 * (X @ beta)`) aren't documented; whether or not
# they're recognised is looked at in C15
FORMS = ["-(X@b)", "-dot"]


def check_step(case, step, ctx, n=400, k=3, max_tilt=None, what="the coefficients"):
    """`step(beta)` must leave the posterior invariant."""
    X, y, s = unpack(case)
    p = X.shape[1]
    logp = logpost(case)
    if max_tilt is None:
        # See D22 (C09) for the limits of the Polya-Gamma sampler
        max_tilt = 18.0 if "h" in case else 300.0
    rng = np.random.default_rng([case["seed"], 11])
    scales = {f"Xb{i}": (lambda t, i=i: t @ X[i]) for i in (0, len(X) - 1)}

    def pv(n, stage):
        draws = exact_draws(logp, p, n + max(2 * n, 1500), rng)
        if np.abs(draws @ X.T).max() > max_tilt:
            raise Skip
        theta0, pool = draws[:n], draws[n:]
        theta1 = np.empty_like(theta0)
        with sut("take a step"):
            for i, b in enumerate(theta0):
                for _ in range(k):
                    b = np.asarray(step(b))
                    if b.shape != (p,):
                        raise Violation(f"the step returned shape {b.shape} instead of {(p,)}")
                theta1[i] = b
        if not np.all(np.isfinite(theta1)):
            raise Violation("non-finite coefficients")
        if np.any(np.all(theta1 == theta0, axis=0)):
            raise Violation("the step doesn't move the coefficients")
        return invariance_stats(theta0, theta1, pool, scales)

    msg = stats.decide(pv, n * (3 if ctx.thorough else 1))
    if msg:
        raise Violation(f"the step doesn't leave the posterior of {what} invariant: {msg}")


def check_convergence(case, step, ctx, chains=60, k=40, max_tilt=15.0):
    """From extreme starts, the chain must reach the posterior."""
    X, y, s = unpack(case)
    p = X.shape[1]
    logp = logpost(case)
    rng = np.random.default_rng([case["seed"], 12])

    def pv(n, stage):
        pool = exact_draws(logp, p, 2000, rng)
        if "h" in case and np.abs(pool @ X.T).max() > max_tilt:
            raise Skip
        out = np.empty((n, p))
        for i in range(n):
            b = rng.choice([-1.0, 1.0], size=p) * 10 ** rng.uniform(-1, 3, size=p)
            # Far starts, with a linear predictor of at most `max_tilt`
            b = b * min(1.0, max_tilt / max(np.abs(X @ b).max(), 1e-9))
            with sut("take a step"):
                for _ in range(k):
                    b = np.asarray(step(b))
            out[i] = b
        if not np.all(np.isfinite(out)):
            raise Violation("non-finite coefficients")
        ps = {}
        for j in range(p):
            ps.update(stats.two_sample(out[:, j], pool[:, j], f"x{j}:"))
        return ps

    msg = stats.decide(pv, chains, grow=3)
    if msg:
        raise Violation(f"{k} steps from extreme starts don't reach the posterior: {msg}")


def shape_label(case):
    n, p = len(case["X"]), len(case["X"][0])
    ls = ["tall" if n > p else "square" if n == p else "wide", "scale_ndim=%d" % np.ndim(case["scale"])]
    y = np.array(case["y"])
    if np.all(y == 0):
        ls.append("all y zero")
    if y.max() >= 100:
        ls.append("large counts")
    if any(case["units"]):
        ls.append("units")
    if np.max(case["scale"]) > 5:
        ls.append("wide prior")
    if "h" in case and case["h"] != int(case["h"]):
        ls.append("fractional h")
    return ls
