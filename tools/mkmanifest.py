"""Write MANIFEST.json from properties.jsonl, baseline.json and the tables below (development helper; the result is committed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc.prover import contract_index  # noqa: E402

NA = {
    "C24": "the property bounds the error of an estimate in probability over random samples (a limit theorem); a functional contract cannot state a "
           "probability over the sampling distribution, and no deductive verifier in reach has a theory of convergence in distribution. The deterministic "
           "part (the estimators equal their formulas on the given samples) is what C03, C05, C09, C15, C16 and C20 prove or check.",
}
PENDING = "contract not built yet"


def main():
    base = json.load(open(os.path.join(V, "baseline.json")))
    idx = contract_index()
    checks, na = [], []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)["id"]
        mine = [c for c, a in idx.items() if p in a.get("props", [])]
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
            continue
        claimed = [c for c in mine if c in base or idx[c].get("native_only")]
        if not claimed:
            na.append({"property": p, "reason": PENDING})
            continue
        proved = sum(len(base[c]["proved"]) for c in mine if c in base)
        opn = sum(len(base[c]["open"]) for c in mine if c in base)
        und = [c for c in mine if c not in base or base[c].get("undecided")]
        full = [c for c in mine if c in base and base[c]["complete"]]
        part = [c for c in mine if c in base and not base[c]["complete"] and base[c]["proved"]]
        rest = [c for c in mine if c not in full and c not in part]
        note = f"{proved} named clauses proved on the current source, {opn} not discharged. Proved for all inputs: {', '.join(full) or 'none'}."
        if part:
            note += f" Proved in part (the open clauses are only evaluated on generated inputs): {', '.join(part)}."
        if rest:
            note += f" Bounded only (contract evaluated on the real code with seeded inputs, never counted as proved): {', '.join(rest)}."
        note += (" Trusted: the verification-condition generator /verif/pyvc and its axioms for numpy/pandas/scipy/pydantic calls (listed per run in the "
                 "evidence), the SMT solvers, floats read as reals in proofs.")
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "contract-based deductive verification of the real source (symbolic execution to SMT obligations), with native evaluation of the same contracts for counterexamples and bounded stand-ins",
                       "level": "proof" if proved and proved >= opn else "exploration", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 -c \"import json; json.load(open('baseline.json'))\" && python3-vt -c 'import z3'",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the verifier reads the source, the native evaluator imports it. Repairs are the fix: commits listed in known-findings.txt."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])


main()
