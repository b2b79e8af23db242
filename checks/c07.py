"""C07: Gaussian regression posteriors have the exact mean and covariance.

Oracle: numpy linear algebra.  Draws are whitened with the exact mean and
precision; the results must be independent standard normals.
"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr

import aemcmc.gibbs as gibbs
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds, unif, units
from vf.core import Sub, Violation, sut

ASSUMPTIONS = [
    "numpy/LAPACK linear algebra is accurate for the generated conditioning",
    "at most 12 rows and 9 columns, omega in [0.02, 50], prior scales in [0.05, 20], up to units of 1e-5 to 1e5 of the response and of each column",
]


def white_stats(draws, mean, prec):
    """Whitened draws are i.i.d. standard normal."""
    L = np.linalg.cholesky(prec)
    w = (draws - mean) @ L
    u = ndtr(w)
    p = u.shape[1]
    ps = stats.uniformity(u)
    for j in range(min(p, 4)):
        ps.update(stats.uniformity(u[:, j], f"{j}:"))
    for i in range(min(p, 5)):
        for j in range(i):
            ps.update(stats.uncorrelated(u[:, i], u[:, j], f"corr{i}{j}"))
    # The unwhitened coordinates as well (a permutation of independent ones...)
    sd = np.sqrt(np.diag(np.linalg.inv(prec)))
    for j in range(min(p, 4)):
        ps.update(stats.uniformity(ndtr((draws[:, j] - mean[j]) / sd[j]), f"marg{j}:"))
    return ps


@st.composite
def design(draw, max_n=8, max_p=6):
    shape = draw(st.sampled_from(["tall", "square", "wide", "one_row", "one_col"]))
    n = draw(st.integers(1, max_n))
    p = draw(st.integers(1, max_p))
    if shape == "tall":
        n = max(n, p + 1)
    elif shape == "square":
        n = p
    elif shape == "wide":
        p = max(p, n + 1)
    elif shape == "one_row":
        n = 1
    else:
        p = 1
    kind = draw(st.sampled_from(["dense", "dense", "dummy", "zero_col", "collinear"]))
    if kind == "dummy":
        el = st.sampled_from([0.0, 1.0])
    else:
        el = unif(-3, 3)
    X = draw(arr(el, (n, p)))
    if kind == "zero_col":
        for r in X:
            r[0] = 0.0
    if kind == "collinear" and p > 1:
        for r in X:
            r[1] = 2 * r[0]
    return X


@st.composite
def cases(draw):
    X = draw(design())
    n, p = len(X), len(X[0])
    scale = draw(st.sampled_from(["scalar", "vector", "vector", "len1"]))
    s_shape = {"scalar": (), "vector": (p,), "len1": (1,)}[scale]
    return dict(
        X=X,
        X_how=draw(st.sampled_from(PASSING)),
        omega=draw(arr(logu(0.02, 50), (n,))),
        omega_how=draw(st.sampled_from(PASSING)),
        scale_inv=draw(arr(logu(0.05, 20), s_shape)),
        scale_how=draw(st.sampled_from(PASSING)),
        z=draw(arr(unif(-10, 10), (n,))),
        z_how=draw(st.sampled_from(PASSING)),
        units=draw(units(p, scale == "vector" and p > 1)),
        z_units=draw(st.sampled_from([0, 0, 0, -4, -2, 1, 3, 5])),
        seed=draw(seeds),
    )


def check(case, ctx):
    srng = RandomStream(case["seed"])
    ins = Inputs()
    # The problem is given in generated units and judged in the original ones, which
    # doesn't affect the accuracy of the linear algebra
    X0 = np.array(case["X"], float)
    d, g = 10.0 ** np.array(case["units"]), 10.0 ** case["z_units"]
    X = X0 * d
    s0 = np.array(case["scale_inv"], float)
    scale_inv = s0 * (d if s0.shape == d.shape else d[0]) / g
    n, p = X.shape
    with sut("build the posterior"):
        beta = gibbs.normal_regression_posterior(
            srng,
            ins.give(np.array(case["omega"]) / g**2, case["omega_how"], "omega"),
            ins.give(scale_inv, case["scale_how"], "lmbdatau_inv"),
            at.as_tensor(X) if case["X_how"] == "const" else give_matrix(ins, X, case["X_how"]),
            give_vector(ins, np.array(case["z"]) * g, case["z_how"]),
        )
        f = fn(ins, beta)
    omega = np.array(case["omega"])
    prec = X0.T @ (omega[:, None] * X0) + np.diag(np.broadcast_to(s0**2, (p,)))
    mean = np.linalg.solve(prec, X0.T @ (omega * np.array(case["z"])))

    def pv(m, stage):
        with sut("draw from the posterior"):
            out = np.stack([np.asarray(f()) for _ in range(m)])
        if out.shape[1:] != (p,):
            raise Violation(f"draws have shape {out.shape[1:]} instead of {(p,)}")
        if not np.all(np.isfinite(out)):
            raise Violation("non-finite draws")
        return white_stats(out * d / g, mean, prec)

    msg = stats.decide(pv, 500 if not ctx.thorough else 2500)
    if msg:
        raise Violation(f"draws don't follow N(A^-1 X' Omega z, A^-1): {msg}")


def give_matrix(ins, X, how):
    # Matrices as users declare them: no static dimensions
    import aesara

    if how == "shared":
        return aesara.shared(X, name="X")
    v = at.matrix("X")
    ins.add(v, X)
    return v * 1.0 if how == "expr" else v


def give_vector(ins, z, how):
    import aesara

    z = np.array(z, float)
    if how == "const":
        return at.as_tensor(z)
    if how == "shared":
        return aesara.shared(z, name="z")
    v = at.vector("z")
    ins.add(v, z)
    return v * 1.0 if how == "expr" else v


def label(case):
    n, p = len(case["X"]), len(case["X"][0])
    return [
        "tall" if n > p else "square" if n == p else "wide",
        "scale_ndim=%d" % np.ndim(case["scale_inv"]),
        "X:" + case["X_how"],
    ] + (["units"] if any(case["units"]) or case["z_units"] else []) + (["one_row"] if n == 1 else []) + (["one_col"] if p == 1 else [])


SUBS = [
    Sub(
        "posterior",
        cases(),
        check,
        quick=240,
        thorough=4000,
        shards=8,
        label=label,
        nontrivial=lambda c: len(c["X"]) * len(c["X"][0]) > 1,
        rule="a regression (design x weights x scales x response x passing) with more than one design element, at least 500 draws whitened with the exact mean and precision",
    )
]
