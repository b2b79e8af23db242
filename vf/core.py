"""Driver: generates cases with Hypothesis, runs them in parallel shards, shrinks
failures, writes evidence and replay files, and decides the exit status.

Outcomes of a check:
  exit 0            the property held on everything explored
  exit 1            VIOLATION property=<id> replay=<path>
  exit 3            the harness itself failed (never a violation)
"""
import contextlib
import hashlib
import json
import logging
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Optional

import vf  # noqa: F401  (sets sys.path)
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st

try:  # Mutated near-duplicates of earlier cases are poor value at these sample sizes
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    ConjectureRunner.generate_mutations_from = lambda self, data: None
except Exception:  # noqa: BLE001
    pass

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


class Violation(Exception):
    """The code under test breaks the property on this case."""


class Skip(Exception):
    """The case turned out not to be in the property's domain (counted)."""


@contextlib.contextmanager
def sut(what: str):
    """Errors raised by the code under test on in-domain inputs are violations."""
    try:
        yield
    except (Violation, Skip):
        raise
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc(limit=-6)
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:600]}\n{tb}") from e


@dataclass
class Sub:
    """One generated check of a property."""

    name: str
    strategy: Any
    check: Callable[[dict, "Ctx"], None]
    quick: int  # number of examples, over all shards
    thorough: int
    shards: int = 1  # quick
    nontrivial: Callable[[dict], bool] = lambda case: True
    label: Optional[Callable[[dict], List[str]]] = None
    rule: str = ""
    shrink: int = 40  # how many further cases shrinking may execute
    shrink_s: float = 60.0
    weight: float = 1.0  # relative cost, for scheduling


@dataclass
class Ctx:
    """What a case's check may use besides the case."""

    tier: str
    known: Dict[str, dict]
    findings: Dict[str, str] = field(default_factory=dict)
    counters: Counter = field(default_factory=Counter)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def finding(self, fid: str, what: str) -> bool:
        """Report a violation that has the exact form of a listed finding."""
        if fid not in self.known:
            return False
        self.findings.setdefault(fid, what)
        self.counters[f"known:{fid}"] += 1
        return True


def _from_package(e):
    """Whether an error was raised in, or through, the code under test."""
    root = os.path.realpath(os.path.join(REPO, "aemcmc")) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


def jkey(case) -> str:
    return json.dumps(case, sort_keys=True, default=str)


def run_shard(sub: Sub, tier: str, seed: int, n: int, deadline: float, known, first: bool = True) -> dict:
    ctx = Ctx(tier, known)
    seen: Dict[str, Optional[str]] = {}
    labels: Counter = Counter()
    samples: List[dict] = []
    state = dict(fail_t=None, shrinks=0, nontrivial=0, skipped=0, late=0, evals=0, errors=[])
    best: Dict[str, Any] = {}

    # Hypothesis always starts with the simplest case: one shard is enough for it
    state["drop"] = not first

    def execute(case):
        if state["drop"]:
            state["drop"] = False
            return
        key = jkey(case)
        if key in seen:
            if seen[key] is not None:
                raise Violation(seen[key])
            return
        if state["fail_t"] is not None:
            state["shrinks"] += 1
            if state["shrinks"] > sub.shrink or time.time() - state["fail_t"] > sub.shrink_s:
                return
        elif time.time() > deadline:
            state["late"] += 1
            return
        state["evals"] += 1
        try:
            try:
                sub.check(case, ctx)
            except (Skip, Violation, MemoryError, KeyboardInterrupt, SystemExit):
                raise
            except Exception as e:  # noqa: BLE001
                tb = traceback.format_exc(limit=-8)
                if _from_package(e):
                    raise Violation(f"raised {type(e).__name__}: {str(e)[:600]}\n{tb}") from e
                # The harness's own errors, which are reported if there are many
                state["errors"].append(f"{sub.name}: {jkey(case)[:600]}\n{tb[-1500:]}")
                seen[key] = None
                return
        except Skip:
            state["skipped"] += 1
            seen[key] = None
            return
        except Violation as e:
            seen[key] = str(e)
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
            best["case"], best["msg"] = case, str(e)
            raise
        seen[key] = None
        if state["fail_t"] is None:
            nt = bool(sub.nontrivial(case))
            state["nontrivial"] += nt
            if sub.label:
                labels.update(set(sub.label(case)))
            if nt and len(samples) < 3:
                samples.append(case)

    @hypothesis.seed(seed)
    @settings(
        max_examples=n + (not first),
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )
    @given(sub.strategy)
    def test(case):
        execute(case)

    failure = None
    try:
        test()
    except Violation:
        failure = dict(sub=sub.name, case=best["case"], message=best["msg"])
    except BaseException as e:  # Flaky etc.: fall back on the recorded failure
        if best:
            failure = dict(sub=sub.name, case=best["case"], message=best["msg"])
        else:
            raise RuntimeError(f"harness error in {sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}") from e
    return dict(
        sub=sub.name,
        evals=state["evals"],
        nontrivial=state["nontrivial"],
        skipped=state["skipped"],
        late=state["late"],
        errors=state["errors"],
        labels=dict(labels),
        samples=samples,
        failure=failure,
        findings=ctx.findings,
        counters=dict(ctx.counters),
        keys=[hashlib.sha1(k.encode()).hexdigest()[:12] for k, v in seen.items()],
    )


def _worker(jobs, results):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    while True:
        try:
            i, fn = jobs.get(timeout=0.5)
        except queue.Empty:
            continue
        if fn is None:
            return
        t0 = time.time()
        try:
            r = JOBS[i]()
            r["wall"] = round(time.time() - t0, 2)
            results.put((i, r, None))
        except BaseException:  # noqa: BLE001
            results.put((i, None, traceback.format_exc()))


JOBS: List[Callable[[], dict]] = []


def run_jobs(n_procs: int):
    ctx = mp.get_context("fork")
    jobs, results = ctx.Queue(), ctx.Queue()
    for i in range(len(JOBS)):
        jobs.put((i, True))
    procs = [ctx.Process(target=_worker, args=(jobs, results)) for _ in range(n_procs)]
    for p in procs:
        jobs.put((None, None))
    for p in procs:
        p.start()
    out, errors = {}, []
    while len(out) + len(errors) < len(JOBS):
        try:
            i, r, err = results.get(timeout=1.0)
        except queue.Empty:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                errors.append(f"worker died with exit code {dead[0].exitcode}")
                break
            if not any(p.is_alive() for p in procs) and results.empty():
                errors.append("workers ended without reporting")
                break
            continue
        if err:
            errors.append(err)
        else:
            out[i] = r
    for p in procs:
        if errors:
            p.terminate()
        p.join()
    return [out[i] for i in sorted(out)], errors


def load_known(pid: str) -> Dict[str, dict]:
    """The findings listed for this property, by id (see known_findings.jsonl)."""
    res = {}
    path = os.path.join(ROOT, "known_findings.jsonl")
    with open(path) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    res[d["id"]] = d
    return res


def main(pid: str, subs: List[Sub], argv: List[str], assumptions: List[str] = ()):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    known = load_known(pid)

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            rep = json.load(f)
        (sub,) = [s for s in subs if s.name == rep["sub"]]
        ctx = Ctx(rep.get("tier", tier), known)
        try:
            sub.check(rep["case"], ctx)
        except Violation as e:
            print(e)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        for fid, what in ctx.findings.items():
            print(f"KNOWN-FINDING: property={pid} {fid}: {what}")
        print("replay: the property holds on this case")
        return 0

    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1].split(",")
    budget = float(os.environ.get("VF_BUDGET", "250" if tier == "quick" else "800"))
    deadline = t0 + budget
    n_procs = int(os.environ.get("VF_PROCS", "8"))

    JOBS.clear()
    plan = []
    for s in subs:
        if only and s.name not in only:
            continue
        total = s.quick if tier == "quick" else s.thorough
        shards = s.shards if tier == "quick" else max(s.shards, min(8, total))
        shards = max(1, min(shards, total))
        for k in range(shards):
            n = total // shards + (k < total % shards)
            h = int(hashlib.sha256(f"{seed}/{pid}/{s.name}/{k}".encode()).hexdigest()[:12], 16)
            plan.append((s.weight * n, s, h, n, k == 0))
    plan.sort(key=lambda t: -t[0])
    for _, s, h, n, first in plan:
        JOBS.append(lambda s=s, h=h, n=n, first=first: run_shard(s, tier, h, n, deadline, known, first))

    results, errors = run_jobs(min(n_procs, len(JOBS)))

    per_sub: Dict[str, dict] = {}
    failures, findings, counters = [], {}, Counter()
    case_errors = []
    for r in results:
        case_errors += r["errors"]
        d = per_sub.setdefault(
            r["sub"],
            dict(evaluations=0, nontrivial=0, skipped=0, not_run_for_time=0, distinct=set(), labels=Counter(), samples=[], wall_s=0.0),
        )
        d["evaluations"] += r["evals"]
        d["nontrivial"] += r["nontrivial"]
        d["skipped"] += r["skipped"]
        d["not_run_for_time"] += r["late"]
        d["distinct"].update(r["keys"])
        d["labels"].update(r["labels"])
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        if len(d["samples"]) < 2:
            d["samples"] += r["samples"][: 2 - len(d["samples"])]
        counters.update(r["counters"])
        findings.update({k: v for k, v in r["findings"].items() if k not in findings})
        if r["failure"]:
            failures.append(r["failure"])

    rules = "; ".join(f"{s.name}: {s.rule}" for s in subs if s.rule)
    samples = [dict(sub=k, case=c) for k, d in per_sub.items() for c in d["samples"]]
    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in per_sub.values()),
            distinct_nontrivial=sum(min(len(d["distinct"]), d["nontrivial"]) for d in per_sub.values()),
            rule="Cases are drawn by Hypothesis strategies seeded by VERIF_SEED; each case is decided against an explicit oracle. Non-trivial: " + rules,
            samples=samples,
            per_check={
                k: dict(
                    evaluations=d["evaluations"],
                    nontrivial=d["nontrivial"],
                    skipped_out_of_domain=d["skipped"],
                    not_run_for_time=d["not_run_for_time"],
                    classes=dict(sorted(d["labels"].items())),
                    cpu_wall_s=d["wall_s"],
                )
                for k, d in per_sub.items()
            },
            counters=dict(counters),
            known_findings_reproduced=sorted(findings),
            harness_errors=len(case_errors),
        ),
        assumptions=list(assumptions),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    if failures:
        failures.sort(key=lambda f: len(jkey(f["case"])))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for i, fl in enumerate(failures[:3]):
            h = hashlib.sha1(jkey([fl["sub"], fl["case"]]).encode()).hexdigest()[:8]
            path = os.path.join("replays", f"{pid}-{fl['sub']}-{h}.json")
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, **fl), f, indent=1, default=str)
            print(f"[{fl['sub']}] {fl['message']}")
            print(f"  case: {jkey(fl['case'])[:2000]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if len(case_errors) > max(1, 0.1 * evidence["coverage"]["evaluations"]):
        errors += case_errors
    elif case_errors:
        print(f"{len(case_errors)} cases that the harness could not decide, e.g. {case_errors[0]}", file=sys.stderr)
    if errors:
        print("HARNESS ERROR (not a violation):", file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 3
    for fid, d in sorted(known.items()):
        if fid in findings:
            print(f"KNOWN-FINDING: property={pid} {fid}: {findings[fid]}")
    print(
        f"{pid} {tier}: held on {evidence['coverage']['evaluations']} cases "
        f"({evidence['coverage']['distinct_nontrivial']} distinct non-trivial), {evidence['wall_s']} s"
    )
    return 0
