"""Exact reference draws of low-dimensional posteriors, and invariance tests.

`exact_draws` uses rejection sampling from a multivariate t fitted at the mode;
the densities it is used for have Gaussian or lighter tails, so that the t
dominates them, and the envelope constant is taken from a large pilot sample.
"""
import numpy as np
from scipy import optimize

from vf import stats
from vf.core import Skip, Violation


def fit(logp, x0):
    d = len(x0)
    res = optimize.minimize(lambda x: -float(logp(x[None])[0]), x0, method="BFGS")
    x = res.x
    # Numeric Hessian
    H = np.empty((d, d))
    eps = 1e-3
    E = np.eye(d) * eps
    pts, idx = [], []
    for i in range(d):
        for j in range(i + 1):
            pts += [x + E[i] + E[j], x + E[i] - E[j], x - E[i] + E[j], x - E[i] - E[j]]
            idx.append((i, j))
    v = logp(np.array(pts)).reshape(-1, 4)
    for (i, j), (a, b, c, e) in zip(idx, v):
        H[i, j] = H[j, i] = -(a - b - c + e) / (4 * eps**2)
    w, V = np.linalg.eigh(H)
    w = np.maximum(w, 1e-3 * max(w.max(), 1e-9))
    return x, V / np.sqrt(w)  # columns scaled


def exact_draws(logp, d, n, rng, x0=None, df=5.0, infl=1.25):
    """`n` independent draws of the density proportional to exp(logp)."""
    mode, A = fit(logp, np.zeros(d) if x0 is None else x0)

    def propose(m):
        z = rng.standard_normal((m, d))
        g = rng.chisquare(df, size=(m, 1)) / df
        t = z / np.sqrt(g)
        lq = -0.5 * (df + d) * np.log1p((t**2).sum(1) / df)
        x = mode + infl * t @ A.T
        return x, logp(x) - lq

    _, lw = propose(20000)
    M = np.nanmax(lw)
    rate = np.exp(lw - M).mean()
    if not np.isfinite(M) or rate < 0.01:
        raise Skip
    M += np.log(1.3)
    out, total = [], 0
    for _ in range(400):
        x, lw = propose(20000)
        k = np.log(rng.random(len(lw))) < lw - M
        out.append(x[k])
        total += k.sum()
        if total >= n:
            return np.concatenate(out)[:n]
    raise Skip


def rank_in(pool_sorted, x):
    """The (mid-)rank of values in a reference sample, in (0, 1)."""
    n = len(pool_sorted)
    return (np.searchsorted(pool_sorted, x, "left") + np.searchsorted(pool_sorted, x, "right") + 1) / (2 * n + 2)


def functionals(theta, extra=None, rng=None):
    """Scalar functionals of draws with shape (n, d)."""
    n, d = theta.shape
    cols = {f"x{j}": theta[:, j] for j in range(d)}
    for i in range(d):
        for j in range(i):
            cols[f"x{i}+x{j}"] = theta[:, i] + theta[:, j]
            cols[f"x{i}-x{j}"] = theta[:, i] - theta[:, j]
    for k, f in (extra or {}).items():
        cols[k] = f(theta)
    return cols


def invariance_stats(theta0, theta1, pool, extra=None):
    """p-values that theta1 = K(theta0) has the distribution of `pool`, given that theta0 has."""
    f0, f1, fp = (functionals(t, extra) for t in (theta0, theta1, pool))
    ps = {}
    for k in f1:
        ps.update(stats.two_sample(f1[k], fp[k], f"{k}:"))
        ref = np.sort(fp[k])
        r0, r1 = rank_in(ref, f0[k]), rank_in(ref, f1[k])
        a = np.stack([r1, (r1 - 0.5) ** 2], 1)
        b = np.stack([r0, (r0 - 0.5) ** 2], 1)
        ps.update(stats.paired_means(a, b, ["mean", "spread"], f"{k}:paired-"))
    return ps
