"""C11: forward-filtering backward-sampling draws exact state paths.

Oracles: (short sequences) the exact probability of every path, by enumeration;
(long sequences) exact smoothed marginal and pairwise probabilities in log space.
"""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp
from scipy.stats import binom
from scipy.stats import t as student

import aesara
import aesara.tensor as at
from aemcmc.ffbs import ffbs_step
from aesara.tensor.random import RandomStream

from vf import stats
from vf.build import PASSING, Inputs, arr, fn, logu, seeds, unif
from vf.core import Skip, Sub, Violation, sut

ASSUMPTIONS = [
    "log-likelihood contrasts within one observation up to 25 (40 in short sequences), non-zero transition probabilities at least 1e-3, so that the documented fixed-precision forward pass doesn't underflow",
    "at least one path is possible",
]

probs = st.sampled_from([0.0, 0.0, 0.001, 0.05, 0.3, 0.5, 1.0, 1.0, 2.0])


def normalize(rows):
    a = np.array(rows, float)
    s = a.sum(-1, keepdims=True)
    a = np.where(s > 0, a / np.where(s > 0, s, 1), 1.0 / a.shape[-1])
    return a


@st.composite
def hmm(draw, max_n, hows, bounds=None):
    N = draw(max_n)
    M = draw(st.sampled_from([2, 3, 2, 3, 3, 1] if N < 500 else [2, 3]))
    single = draw(st.booleans())
    n_gam = 1 if single else N
    if max(N * M * M, 1) > 150 and not single:
        # Long time-varying sequences reuse a few matrices
        base = draw(arr(probs, (3, M, M)))
        pick = draw(st.lists(st.integers(0, 2), min_size=5, max_size=5))
        gam = [base[pick[t % 5]] for t in range(N)]
    else:
        gam = draw(arr(probs, (n_gam, M, M)))
    # The forward probabilities of very long sequences should need rescaling
    mag = draw(st.sampled_from([0.0, 1.0, 4.0, 4.0, 12.0] + [20.0] * (N <= 12) if N < 500 else [4.0, 12.0]))
    ll_el = unif(-mag, mag) if mag else st.just(0.0)
    impossible = draw(st.booleans()) and draw(st.booleans())
    if N > 12:
        base = draw(arr(ll_el, (7, M)))
        ll = [[base[(3 * t + t // 7) % 7][m] - (3.0 if N >= 500 and (t // 2) % M == m else 0.0) for t in range(N)] for m in range(M)]
    else:
        ll = draw(arr(ll_el, (M, N)))
        if impossible:
            for t in range(N):
                if draw(st.booleans()):
                    ll[draw(st.integers(0, M - 1))][t] = "-inf"
    return dict(
        gamma0=draw(arr(st.sampled_from([0.0, 0.1, 0.5, 1.0, 1.0, 3.0]), (M,))),
        Gammas=gam,
        log_lik=ll,
        # The log-likelihoods' offsets don't matter
        offset=draw(st.sampled_from([0.0, 0.0, -900.0, 700.0, -50.0])),
        how=draw(st.sampled_from(hows)),
        seed=draw(seeds),
        # The result doesn't depend on when the forward probabilities are rescaled
        bound=draw(st.sampled_from(bounds)) if bounds else None,
    )


@st.composite
def typed(draw, cases):
    """Different types of the arguments and of the configuration."""
    c = draw(cases)
    types = draw(st.sampled_from(["", "", "fff", "fdd", "dff", "dfd", "ddf"]))
    floatX = draw(st.sampled_from(["float64", "float64", "float32"]))
    c.update(types=types, floatX=floatX)
    if types or floatX == "float32":
        # The precision bound and the contrasts must make sense in single precision
        c["log_lik"] = [[v if isinstance(v, str) else max(min(v, 8.0), -8.0) for v in r] for r in c["log_lik"]]
        if c["bound"] == 1e-60:
            c["bound"] = 1e-18
    return c


def types(case):
    return [{"f": "float32", "d": "float64"}[k] for k in case.get("types") or "ddd"]


def prepare(case):
    g0 = np.array(case["gamma0"], float)
    if g0.sum() == 0:
        g0 = np.ones(len(g0))
    G = normalize(case["Gammas"])
    ll = np.array([[float(v) for v in r] for r in case["log_lik"]])
    with np.errstate(all="ignore"):
        off = case["offset"] * (1 + 0.01 * np.arange(ll.shape[1]))
    # An observation must be possible in some state
    ll[:, np.all(np.isneginf(ll), axis=0)] = 0.0
    return tuple(np.asarray(x, t).astype(float) for x, t in zip((g0, G, ll + off), types(case)))


CACHE = {}


def build(case, g0, G, ll):
    """Compile the step (once per process for the explicit inputs, which can have any shape)."""
    how = case["how"]
    if how == "input":
        key = G.shape[0] == 1
        if key not in CACHE:
            ins = Inputs()
            # A single matrix broadcasts along its leading dimension
            Gammas = at.tensor("float64", shape=(1 if key else None, None, None), name="Gammas")
            args = (at.vector("g0"), Gammas, at.matrix("ll"))
            srng = RandomStream(case["seed"])
            out, updates = ffbs_step(*args, srng)
            CACHE[key] = srng, fn(ins, out, args, updates=updates)
        srng, f = CACHE[key]
        srng.seed(case["seed"])
        return lambda: f(g0, G, ll)

    srng = RandomStream(case["seed"])
    ins = Inputs()
    if how == "numpy":
        args = tuple(np.asarray(x, t) for x, t in zip((g0, G, ll), types(case)))
    else:
        args = tuple(ins.give(x, how, n, dtype=t) for x, n, t in zip((g0, G, ll), ("g0", "Gammas", "ll"), types(case)))
    kwargs = {"lower_prec_bound": case["bound"]} if case.get("bound") else {}
    out, updates = ffbs_step(*args, srng, **kwargs)
    return fn(ins, out, updates=updates)


def log_paths(g0, G, ll):
    """Log-probabilities (up to a constant) of all paths S_1..S_N."""
    M, N = ll.shape
    with np.errstate(divide="ignore"):
        lg0, lG = np.log(g0 / g0.sum()), np.log(G)
    lG = np.broadcast_to(lG, (N, M, M))
    first = logsumexp(lg0[:, None] + lG[0], axis=0)
    paths = np.array(list(itertools.product(range(M), repeat=N)))
    lp = first[paths[:, 0]] + ll[paths[:, 0], 0]
    for t in range(1, N):
        lp = lp + lG[t][paths[:, t - 1], paths[:, t]] + ll[paths[:, t], t]
    return paths, lp


def draw_paths(f, n, N, M):
    with sut("draw a path"):
        out = np.stack([np.asarray(f()) for _ in range(n)])
    if out.shape[1:] != (N,):
        raise Violation(f"the state sequence has shape {out.shape[1:]} instead of {(N,)}")
    if np.any((out < 0) | (out >= M)):
        raise Violation("states outside of their range")
    return out


def check_short(case, ctx):
    g0, G, ll = prepare(case)
    M, N = ll.shape
    paths, lp = log_paths(g0, G, ll)
    if not np.any(lp > -np.inf):
        raise Skip
    p = np.exp(lp - logsumexp(lp))
    with sut("build FFBS"), aesara.config.change_flags(floatX=case.get("floatX", "float64")):
        f = build(case, g0, G, ll)
    mult = M ** np.arange(N)[::-1]

    def pv(n, stage):
        out = draw_paths(f, n, N, M)
        idx = out @ mult
        if np.any(p[idx] == 0):
            bad = out[p[idx] == 0][0]
            raise Violation(f"an impossible path was drawn: {bad.tolist()}")
        counts = np.bincount(idx, minlength=len(p))
        ps = stats.chisq(counts, p, "paths")
        for t in {0, N - 1}:
            marg = np.array([p[paths[:, t] == m].sum() for m in range(M)])
            ps.update(stats.chisq(np.bincount(out[:, t], minlength=M), marg, f"state{'first' if t == 0 else 'last'}"))
        # Rare paths must stay rare
        for nm, sel in (("rare", p < 1e-3),):
            q = p[sel].sum()
            k = counts[sel].sum()
            ps[nm] = min(1.0, 2 * min(binom.sf(k - 1, n, min(q, 1.0)), binom.cdf(k, n, min(q, 1.0))))
        # Successive draws are independent (of the previous draw's path)
        sc = p[idx].argsort().argsort() / n
        if len(np.unique(idx)) > 1:
            r = np.cumsum(p)[idx] - p[idx] * np.random.default_rng([case["seed"], stage]).random(n)
            ps.update(stats.uncorrelated(r[1:], r[:-1], "serial"))
            ps.update(stats.uniformity(r, "pit:"))
        return ps

    msg = stats.decide(pv, 300 if not ctx.thorough else 1500)
    if msg:
        raise Violation(f"paths don't follow their exact posterior: {msg}")


def smooth(g0, G, ll):
    M, N = ll.shape
    with np.errstate(divide="ignore"):
        lg0, lG = np.log(g0 / g0.sum()), np.log(G)
    lG = np.broadcast_to(lG, (N, M, M))
    a = np.empty((N, M))
    prev = lg0
    for t in range(N):
        prev = logsumexp(prev[:, None] + lG[t], axis=0) + ll[:, t]
        a[t] = prev
    b = np.zeros((N, M))
    for t in range(N - 2, -1, -1):
        b[t] = logsumexp(lG[t + 1] + (ll[:, t + 1] + b[t + 1])[None, :], axis=1)
    tot = logsumexp(a[-1])
    if not np.isfinite(tot):
        raise Skip
    marg = np.exp(a + b - tot)
    pair = np.exp(a[:-1, :, None] + lG[1:] + (ll.T[1:] + b[1:])[:, None, :] - tot)
    return marg, pair


def check_long(case, ctx):
    g0, G, ll = prepare(case)
    M, N = ll.shape
    with np.errstate(invalid="ignore"):
        marg, pair = smooth(g0, G, ll)
    with sut("build FFBS"):
        f = build(case, g0, G, ll)

    def pv(n, stage):
        out = draw_paths(f, n, N, M)
        t = np.arange(N)
        if np.any(marg[t, out] == 0) or np.any(pair[t[:-1], out[:, :-1], out[:, 1:]] == 0):
            raise Violation("an impossible path was drawn")
        ps = {}
        # Aggregated, approximately normal statistics: occupation of each state
        # in blocks of time, and transitions.  Per-draw sums are independent.
        for nm, sl in (("start", slice(0, 3)), ("middle", slice(N // 3, 2 * N // 3)), ("end", slice(N - 3, N)), ("all", slice(0, N))):
            for m in range(M):
                add_mean(ps, f"{nm}:{m}", (out[:, sl] == m).sum(1), marg[sl, m].sum(), len(t[sl]))
        for i, j in itertools.product(range(M), repeat=2):
            add_mean(ps, f"trans{i}{j}", ((out[:, :-1] == i) & (out[:, 1:] == j)).sum(1), pair[:, i, j].sum(), N - 1)
        # The state at the worst single time, and the worst single transition
        k, q = (out[:, :, None] == np.arange(M)).sum(0), np.clip(marg, 0, 1)
        ps["single"] = worst(k, n, q)
        k = np.stack([[((out[:, :-1] == i) & (out[:, 1:] == j)).sum(0) for j in range(M)] for i in range(M)]).transpose(2, 0, 1)
        ps["single transition"] = worst(k, n, np.clip(pair, 0, 1))
        return ps

    msg = stats.decide(pv, (120 if N < 400 else 40) * (5 if ctx.thorough else 1))
    if msg:
        raise Violation(f"paths don't have the exact smoothed probabilities: {msg}")


def worst(k, n, q):
    """Bonferroni-corrected smallest two-sided p-value of some binomial counts."""
    p = 2 * np.minimum(binom.sf(k - 1, n, q), binom.cdf(k, n, q))
    return min(1.0, p.min() * k.size)


def add_mean(ps, nm, occupied, expected, length):
    """The mean of `occupied`, counts out of `length` with the given expectation."""
    n = len(occupied)
    x = occupied - expected
    frac = expected / length
    # Rare events make the normal approximation poor
    if min(frac, 1 - frac) * n >= 8 and x.std() > 0:
        ps[nm] = min(1.0, 2 * student.sf(abs(x.mean()) / (x.std() / np.sqrt(n)), n - 1))
    # Hoeffding's bound always holds
    ps[nm + "(bound)"] = min(1.0, 2 * np.exp(-2 * n * (x.mean() / length) ** 2))


def label(c):
    M, N = len(c["log_lik"]), len(c["log_lik"][0])
    ls = ["M=%d" % M, "N=1" if N == 1 else "N=2-12" if N <= 12 else "N>12", "single Gamma" if len(c["Gammas"]) == 1 else "time-varying", c["how"]]
    if any(v == "-inf" for r in c["log_lik"] for v in r):
        ls.append("impossible observations")
    if np.any(np.array(c["Gammas"]) == 0):
        ls.append("zero transitions")
    if c["offset"]:
        ls.append("offset")
    ls += ["mixed or single precision"] * bool(c.get("types")) + ["floatX=float32"] * (c.get("floatX") == "float32")
    return ls


SUBS = [
    Sub(
        "short_paths",
        hmm(st.sampled_from([3, 2, 4, 5, 3, 1]), ["input"]),
        check_short,
        quick=64,
        thorough=3000,
        shards=8,
        weight=2.0,
        label=label,
        nontrivial=lambda c: len(c["log_lik"]) > 1 and len(c["log_lik"][0]) > 1,
        rule="hidden Markov models with 2-3 states and 1-5 observations; at least 300 paths compared with all the exact path probabilities",
    ),
    Sub(
        "passing",
        typed(hmm(st.sampled_from([3, 2, 4, 5, 3, 1]), ["numpy", "const", "shared", "expr", "expr"], [None, None, 1e-5, 1e-60, 0.1])),
        check_short,
        quick=32,
        thorough=300,
        shards=8,
        weight=5.0,
        label=label,
        nontrivial=lambda c: len(c["log_lik"]) > 1 and len(c["log_lik"][0]) > 1,
        rule="as short_paths, with the arguments given as arrays, constants, shared variables or expressions of different types, and different precision bounds",
    ),
    Sub(
        "long_paths",
        hmm(st.sampled_from([15, 40, 90]), ["input"]),
        check_long,
        quick=16,
        thorough=300,
        shards=8,
        weight=6.0,
        label=label,
        nontrivial=lambda c: len(c["log_lik"]) > 1 and len(c["log_lik"][0]) > 1,
        rule="hidden Markov models with 2-3 states and 15-90 observations (needing rescaling); at least 120 paths compared with exact smoothed state and transition probabilities",
    ),
    Sub(
        "very_long_paths",
        hmm(st.sampled_from([1500, 1800]), ["input"]),
        check_long,
        quick=2,
        thorough=40,
        shards=2,
        weight=30.0,
        label=label,
        nontrivial=lambda c: len(c["log_lik"]) > 1 and len(c["log_lik"][0]) > 1,
        rule="as long_paths, with 500-1500 observations and 40 paths",
    ),
]
