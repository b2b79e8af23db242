"""C08: structured multivariate normal samplers draw from the stated distribution.

Oracle: numpy linear algebra (whitened draws are i.i.d. standard normal).
"""
import numpy as np
from hypothesis import strategies as st

import aemcmc.dists as dists
import aesara
import aesara.sparse
import aesara.tensor as at
import scipy.sparse
from aesara.tensor.random import RandomStream

from checks.c07 import design, give_matrix, give_vector, white_stats
from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds, unif, units
from vf.core import Sub, Violation, sut

ASSUMPTIONS = [
    "numpy/LAPACK linear algebra is accurate for the generated conditioning",
    "at most 8 dimensions, eigenvalues of the precision within [0.02, 3e3], up to units of 1e-5 to 1e5 of each coordinate",
]


@st.composite
def rue_cases(draw):
    p = draw(st.integers(1, 6))
    return dict(
        W=draw(arr(unif(-2, 2), (draw(st.integers(1, 5)), p))),
        diag=draw(arr(logu(0.05, 20), (p,))),
        b=draw(arr(unif(-10, 10), (p,))),
        how=draw(st.sampled_from(["const", "input", "shared", "expr", "csc", "csr", "csc_input", "csr_input"])),
        b_how=draw(st.sampled_from(PASSING)),
        # Precisions may be given as banded/diagonal (the typical sparse case)
        band=draw(st.sampled_from(["full", "full", "diag", "tridiag"])),
        units=draw(units(p, True)),
        seed=draw(seeds),
    )


def precision(case):
    W = np.array(case["W"])
    Q = W.T @ W
    p = len(Q)
    if case["band"] == "diag":
        Q = np.diag(np.diag(Q))
    elif case["band"] == "tridiag":
        off = np.triu(np.tril(Q, 1), -1)
        # Diagonal dominance keeps it positive definite
        Q = off - np.diag(np.diag(off)) + np.diag(np.abs(off).sum(1))
    return Q + np.diag(case["diag"])


def check_rue(case, ctx):
    srng = RandomStream(case["seed"])
    ins = Inputs()
    # See C07 about the units
    d = 10.0 ** np.array(case["units"])
    Q0, b0 = precision(case), np.array(case["b"])
    Q, b = Q0 * d * d[:, None], b0 * d
    how = case["how"]
    with sut("build the sampler"):
        if how.startswith("cs"):
            fmt = how[:3]
            Qs = getattr(scipy.sparse, f"{fmt}_matrix")(Q)
            if how.endswith("input"):
                Qv = getattr(aesara.sparse, f"{fmt}_matrix")("Q", dtype="float64")
                ins.add(Qv, Qs)
            else:
                Qv = aesara.sparse.as_sparse_variable(Qs)
        elif how == "const":
            Qv = at.as_tensor(Q)
        else:
            Qv = give_matrix(ins, Q, how)
        out = dists.multivariate_normal_rue2005(srng, give_vector(ins, b, case["b_how"]), Qv)
        f = fn(ins, out)
    run(f, np.linalg.solve(Q0, b0), Q0, ctx, d)


@st.composite
def cong_cases(draw):
    phi = draw(design(max_n=7, max_p=6))
    n, p = len(phi), len(phi[0])
    return dict(
        A=draw(arr(logu(0.05, 50), (p,))),
        A_how=draw(st.sampled_from(PASSING)),
        omega=draw(arr(logu(0.05, 50), (n,))),
        omega_how=draw(st.sampled_from(PASSING)),
        phi=phi,
        phi_how=draw(st.sampled_from(PASSING)),
        t=draw(arr(unif(-10, 10), (n,))),
        t_how=draw(st.sampled_from(PASSING)),
        units=draw(units(p, True)),
        t_units=draw(st.sampled_from([0, 0, 0, -4, -2, 1, 3, 5])),
        seed=draw(seeds),
    )


def check_cong(case, ctx):
    srng = RandomStream(case["seed"])
    ins = Inputs()
    phi0 = np.array(case["phi"], float)
    A0, omega0, t0 = (np.array(case[k]) for k in ("A", "omega", "t"))
    d, g = 10.0 ** np.array(case["units"]), 10.0 ** case["t_units"]
    phi, A, omega, t = phi0 * d, A0 * (d / g) ** 2, omega0 / g**2, t0 * g
    with sut("build the sampler"):
        out = dists.multivariate_normal_cong2017(
            srng,
            give_vector(ins, A, case["A_how"]),
            give_vector(ins, omega, case["omega_how"]),
            at.as_tensor(phi) if case["phi_how"] == "const" else give_matrix(ins, phi, case["phi_how"]),
            give_vector(ins, t, case["t_how"]),
        )
        f = fn(ins, out)
    prec = np.diag(A0) + phi0.T @ (omega0[:, None] * phi0)
    run(f, np.linalg.solve(prec, phi0.T @ (omega0 * t0)), prec, ctx, d / g)


def run(f, mean, prec, ctx, d):
    p = len(mean)

    def pv(m, stage):
        with sut("draw"):
            out = np.stack([np.asarray(f()) for _ in range(m)])
        if out.shape[1:] != (p,):
            raise Violation(f"draws have shape {out.shape[1:]} instead of {(p,)}")
        if not np.all(np.isfinite(out)):
            raise Violation("non-finite draws")
        return white_stats(out * d, mean, prec)

    msg = stats.decide(pv, 500 if not ctx.thorough else 2500)
    if msg:
        raise Violation(f"draws don't follow the stated normal distribution: {msg}")


SUBS = [
    Sub(
        "precision_based",
        rue_cases(),
        check_rue,
        quick=160,
        thorough=3000,
        shards=4,
        label=lambda c: ["Q:" + c["how"], "band:" + c["band"], "p=%d" % len(c["b"])] + (["units"] if any(c["units"]) else []),
        nontrivial=lambda c: len(c["b"]) > 1 and c["band"] != "diag",
        rule="a precision (full/diagonal/tridiagonal, dense or sparse) of dimension > 1 that isn't diagonal",
    ),
    Sub(
        "low_rank_structured",
        cong_cases(),
        check_cong,
        quick=140,
        thorough=3000,
        shards=4,
        label=lambda c: ["wide" if len(c["phi"][0]) > len(c["phi"]) else "tall or square", "phi:" + c["phi_how"]],
        nontrivial=lambda c: len(c["phi"]) * len(c["phi"][0]) > 1,
        rule="diagonals and factor matrix with more than one element",
    ),
]
