"""Writes MANIFEST.json from the property list and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DRAWS = "property-based testing (Hypothesis-generated models and inputs); two-stage statistical oracle against "
TECH = {
    "C01": DRAWS + "exact conjugate posterior CDFs",
    "C02": DRAWS + "exact posterior draws (stationarity and convergence of the kernel)",
    "C03": DRAWS + "exact posterior draws (stationarity and convergence of the kernel)",
    "C04": DRAWS + "the exact law of the step (table-count distribution by dynamic programming, gamma CDF)",
    "C05": DRAWS + "joint-distribution (Geweke) and full-conditional transforms of the horseshoe steps",
    "C06": DRAWS + "the model's own prior (Geweke's joint-distribution test of whole samplers), over generated composed models",
    "C07": DRAWS + "the closed-form Gaussian posterior (whitened draws)",
    "C08": DRAWS + "the closed-form Gaussian (whitened draws), plus metamorphic relations",
    "C09": DRAWS + "an independent Polya-Gamma reference (series, moments, Laplace transform)",
    "C10": DRAWS + "the exact table-count distribution (dynamic programming)",
    "C11": DRAWS + "exhaustive or forward-backward exact path posteriors",
    "C12": "property-based testing; change-of-variables oracle (independent densities, numeric Jacobians) at generated points, and statistical invariance of the real kernel",
    "C13": "property-based testing over generated composed models; graph-dependency and compiled-function oracles",
    "C14": "property-based testing over generated models and histories of constructions and draws; before/after fingerprints and differential draws",
    "C15": "property-based testing over a grammar of documented model forms and near-misses; classification oracle and invariance of the selected steps",
    "C16": "property-based testing over generated samplers and histories of seeds, reseeds and calls; equality, freshness and independence oracles",
    "C17": "random program generation; differential evaluation of original and converted graphs",
    "C18": "property-based testing; differential (two-sample, independence) comparison of original and rewritten graphs",
    "C19": "property-based testing over generated models and histories of calls; consistency, freshness and distribution oracles",
    "C20": "property-based testing of generated model descriptions against a reference model",
    "C21": "property-based testing over generated composed models and hand-built records; graph-substitution and reference-grouping oracles",
}
NOTE = (
    "Searches generated cases; never establishes absence. Statistical decisions are two-stage with a false-alarm "
    "probability below 1e-10 per case. Trusts numpy, scipy, Aesara, aeppl and aehmc as installed. "
    "Domain bounds are in the evidence file's assumptions and in DESIGN.md."
)


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            checks.append(
                dict(
                    property=pid,
                    quick_cmd=f"./check {pid}",
                    thorough_cmd=f"VERIF_TIER=thorough ./check {pid}",
                    evidence_file=f"evidence/{pid}.json",
                    technique=TECH[pid],
                    level="exploration",
                    level_note=NOTE,
                )
            )
        else:
            na.append(dict(property=pid, reason="check not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
