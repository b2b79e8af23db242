"""Statistical decisions with a fixed, tiny false-alarm probability.

Every test is two-stage: a screening sample (p < A1 / number of statistics) and,
only then, a fresh and larger confirmation sample on which the same statistic
has to be significant again at A2.  The chance that a correct implementation is
reported is below A1 * A2 = 1e-10 per case, whatever its random streams are.
"""
from typing import Callable, Dict, Optional

import numpy as np
from scipy import stats as ss
from scipy.special import ndtr

A1 = 1e-3
A2 = 1e-7


def _two_sided(z):
    return float(2 * ndtr(-abs(z)))


def uniformity(u: np.ndarray, prefix="") -> Dict[str, float]:
    """p-values of the hypothesis that `u` are i.i.d. standard uniform."""
    u = np.asarray(u, dtype=float).ravel()
    if not np.all(np.isfinite(u)):
        raise RuntimeError("non-finite probability transform")
    n = len(u)
    c = u - 0.5
    return {
        prefix + "ks": float(ss.kstest(u, "uniform").pvalue),
        prefix + "loc": _two_sided(c.mean() * np.sqrt(12 * n)),
        prefix + "scale": _two_sided((c**2 - 1 / 12).mean() / np.sqrt(1 / 180 / n)),
    }


def uncorrelated(u: np.ndarray, v: np.ndarray, name: str) -> Dict[str, float]:
    """p-value of the hypothesis that paired uniforms are independent."""
    u, v = np.asarray(u, float).ravel(), np.asarray(v, float).ravel()
    n = len(u)
    z = 12 * np.mean((u - 0.5) * (v - 0.5)) * np.sqrt(n)
    return {name: _two_sided(z)}


def two_sample(a: np.ndarray, b: np.ndarray, prefix="") -> Dict[str, float]:
    """p-values of the hypothesis that two independent samples have the same distribution."""
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        raise RuntimeError("non-finite sample")
    pooled = np.concatenate([a, b])
    if np.all(pooled == pooled[0]):
        return {prefix + "ks": 1.0}
    r = ss.rankdata(pooled)
    r = (r - 0.5) / len(r)
    res = {prefix + "ks": float(ss.ks_2samp(a, b, method="asymp").pvalue)}
    for nm, s in (("loc", r), ("scale", (r - 0.5) ** 2)):
        s1, s2 = s[: len(a)], s[len(a) :]
        v = s.var()
        if v > 0:
            z = (s1.mean() - s2.mean()) / np.sqrt(v * (1 / len(a) + 1 / len(b)))
            res[prefix + nm] = _two_sided(z)
    return res


def paired_means(a: np.ndarray, b: np.ndarray, names, prefix="") -> Dict[str, float]:
    """p-values for E[a - b] = 0, for each column of the paired (bounded) functionals."""
    res = {}
    d = np.asarray(a, float) - np.asarray(b, float)
    n = len(d)
    for j, nm in enumerate(names):
        s = d[:, j].std()
        # The functionals are bounded; few distinct differences would make the
        # normal approximation of the mean poor.
        if s == 0 or np.count_nonzero(d[:, j]) < 30:
            continue
        res[prefix + nm] = _two_sided(d[:, j].mean() / (s / np.sqrt(n)))
    return res


def chisq(counts: np.ndarray, probs: np.ndarray, name: str) -> Dict[str, float]:
    """Chi-square goodness of fit, pooling cells with small expectations."""
    counts, probs = np.asarray(counts, float).ravel(), np.asarray(probs, float).ravel()
    n = counts.sum()
    order = np.argsort(probs)
    c, e = [], []
    ac = ae = 0.0
    for i in order:
        ac += counts[i]
        ae += probs[i] * n
        if ae >= 10:
            c.append(ac)
            e.append(ae)
            ac = ae = 0.0
    if ae > 0 or ac > 0:
        if c:
            c[-1] += ac
            e[-1] += ae
        else:
            return {}
    c, e = np.array(c), np.array(e)
    if len(c) < 2:
        return {}
    e *= c.sum() / e.sum()
    return {name: float(ss.chi2.sf(((c - e) ** 2 / e).sum(), len(c) - 1))}


def decide(
    fn: Callable[[int, int], Dict[str, float]],
    n: int,
    grow: int = 4,
    a1: float = A1,
    a2: float = A2,
) -> Optional[str]:
    """`fn(n, stage)` draws `n` fresh samples and returns p-values by statistic."""
    ps = fn(n, 0)
    if not ps:
        return None
    if any(not np.isfinite(p) for p in ps.values()):
        raise RuntimeError(f"non-finite p-value: {ps}")
    bad = {k: p for k, p in ps.items() if p < a1 / len(ps)}
    if not bad:
        return None
    ps2 = fn(n * grow, 1)
    worst = {k: (bad[k], ps2[k]) for k in bad if k in ps2 and ps2[k] < a2}
    if not worst:
        return None
    return "; ".join(f"{k}: p={p1:.1e} (n={n}), p={p2:.1e} (n={n * grow})" for k, (p1, p2) in sorted(worst.items(), key=lambda kv: kv[1][1])[:4])
