#!/usr/bin/env python3
"""Decide one property on the current source of /repo:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED)

1. deductive verification of every contract of the property (pyvc/prover.py, python3-vt): the deciding step;
2. the same contracts evaluated natively on generated cases (native/run.py): counterexample search, and the bounded stand-in for
   the clauses the prover cannot decide.
"""
from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
NATIVE = "/opt/venv/bin/python"
PROVER = "python3-vt"


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig")
    return e


def start_native(prop, seed, seconds, out, maxn, contracts=None):
    cmd = [NATIVE, os.path.join(VERIF, "native", "run.py"), "--prop", prop, "--seed", str(seed), "--seconds", str(seconds), "--max", str(maxn), "--out", out]
    if contracts:
        cmd += ["--contracts", ",".join(contracts)]
    return subprocess.Popen(cmd, env=env(), cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append(line)
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    base = load(os.path.join(VERIF, "baseline.json")) or {}
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif.")
    violations, notes = [], []
    try:
        nat = start_native(prop, seed, 240 if thorough else 40, os.path.join(tmp, "n.json"), 20000 if thorough else 600)
        from pyvc import prover as P

        idx = P.contract_index()
        mine = [c for c, at in idx.items() if prop in at.get("props", [])]
        provable = [c for c in mine if not idx[c].get("native_only") and not idx[c].get("assumed")]
        keep = os.path.join(tmp, "smt")
        pj = os.path.join(tmp, "p.json")
        budget = 600 if thorough else 330
        if provable:
            try:
                subprocess.run([PROVER, "-m", "pyvc.prover", prop, "--out", pj, "--budget", str(budget), "--keep", keep, "--jobs", "7"], env=env(), cwd=VERIF,
                               timeout=budget + 120, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            except subprocess.TimeoutExpired:
                notes.append("prover run out of time")
        pr = load(pj) or {"contracts": {}, "solver_s": 0.0, "wall_s": 0.0}
        _, err = nat.communicate()
        nr = load(os.path.join(tmp, "n.json"))
        if nr is None:
            # the code under test could not even be imported or the runner crashed
            nr = {"contracts": {}, "violations": [], "errors": [{"error": err[-2000:]}]}
            if any(c for c in mine):
                violations.append({"kind": "native", "what": "the contracts could not be evaluated: the runner failed", "detail": err[-2000:]})
        for v in nr["violations"]:
            violations.append({"kind": "input", **v})
        # ---- proof obligations that used to be discharged and no longer are
        lost = []
        for c, rep in pr["contracts"].items():
            b = base.get(c)
            if not b:
                continue
            if rep.get("error") or rep.get("precondition") == "CONTRADICTORY":
                notes.append(f"{c}: not decided by the prover on this source: {rep.get('error')}")
                continue
            for r in rep["results"]:
                if r["verdict"] == "unsat":
                    continue
                nm = r["name"]
                if nm in b["proved"] or (b.get("complete") and nm not in b.get("open", [])):
                    lost.append((c, r))
        found = lambda: any(v["kind"] == "input" for v in violations)
        limit = 1500 if thorough else 560  # seconds since the start after which nothing more is begun
        if lost and not found():
            # look for a failing input for longer, and meanwhile repeat the failed obligations with more time
            hit = {idx[c].get("target") for c, _ in lost if c in idx}
            cs = sorted(c for c in mine if idx[c].get("target") in hit)
            out = os.path.join(tmp, "n1.json")
            n2 = start_native(prop, seed + 1000, 100, out, 5000, cs or None)
            # one obligation per clause first: a clause is lost as soon as one of its obligations is
            first, rest, seen = [], [], set()
            for c, r in lost:
                (rest if (c, r["name"]) in seen else first).append((c, r))
                seen.add((c, r["name"]))
            end = max(t0 + limit, time.time() + 60)
            still = set()

            def again(cr):
                c, r = cr
                if (c, r["name"]) in still or time.time() > end - 5:
                    return
                v, be, sec = P.solve(os.path.join(keep, r["file"]), min(end, time.time() + 110), 2.0)
                r["verdict"] = v
                if v == "unsat":
                    r.update(backend=be, seconds=sec)
                else:
                    still.add((c, r["name"]))

            from concurrent.futures import ThreadPoolExecutor

            with ThreadPoolExecutor(6) as ex:
                list(ex.map(again, first))
                list(ex.map(again, rest))
            lost = [(c, r) for c, r in lost if r["verdict"] != "unsat"]
            if lost:
                n2.communicate()
                r2 = load(out)
                if r2 and r2["violations"]:
                    violations.extend({"kind": "input", **v} for v in r2["violations"])
            else:
                n2.kill()
                n2.communicate()
        # ---- report
        lines = []
        os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
        if any(v["kind"] == "input" for v in violations):
            v = [v for v in violations if v["kind"] == "input"][0]
            path = os.path.join(evd, "replay", f"{prop}.json")
            v = dict(v)
            v["failed_obligations"] = [f"{c}: {r['name']} ({r['verdict']})" for c, r in lost]
            v["replay_cmd"] = f"{NATIVE} {VERIF}/native/run.py --replay {path}"
            json.dump(v, open(path, "w"), indent=1, default=str)
            lines.append(f"VIOLATION property={prop} replay={path}")
            print(f"{v['contract']} on {v['target']}: {v['message'].splitlines()[0]}")
        elif violations:
            path = os.path.join(evd, "replay", f"{prop}.json")
            json.dump(violations[0], open(path, "w"), indent=1, default=str)
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        elif lost:
            path = os.path.join(evd, "replay", f"{prop}.json")
            obl = []
            for c, r in lost:
                f = os.path.join(keep, r["file"])
                obl.append({"contract": c, "target": pr["contracts"][c]["target"], "obligation": r["name"], "path": r["path"], "verifier": r["verdict"],
                            "output": verifier_output(f), "smt2": open(f).read()[:200000] if os.path.exists(f) else None})
            json.dump({"property": prop, "failed_obligations": obl}, open(path, "w"), indent=1)
            for o in obl:
                print(f"obligation not discharged: {o['contract']}: {o['obligation']} ({o['verifier']})")
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        write_evidence(prop, tier, seed, t0, pr, nr, lines, notes, base, idx, mine)
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k[len("finding:"):].strip())
        for n in notes:
            print("note:", n)
        for ln in lines:
            print(ln)
        ob = [r for rep in pr["contracts"].values() for r in rep["results"]]
        print(f"{prop}: {sum(r['verdict'] == 'unsat' for r in ob)}/{len(ob)} obligations discharged; "
              f"{sum(c['ran'] for c in nr['contracts'].values())} native evaluations; {time.time() - t0:.0f}s")
        sys.exit(1 if lines else 0)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def verifier_output(f):
    try:
        txt = open(f).read() + "\n(get-model)\n"
        r = subprocess.run(["z3-new", "-smt2", "-in", "-T:10"], input=txt, capture_output=True, text=True, timeout=20)
        return r.stdout[:4000]
    except (OSError, subprocess.TimeoutExpired):
        return "timeout"


def write_evidence(prop, tier, seed, t0, pr, nr, lines, notes, base, idx, mine):
    obs, dis, per, trusted, assumptions, funcs, open_ = 0, 0, {}, set(), set(), set(), []
    by = {}
    for c, rep in pr["contracts"].items():
        n = len(rep["results"])
        d = sum(r["verdict"] == "unsat" for r in rep["results"])
        obs += n
        dis += d
        for r in rep["results"]:
            if r["verdict"] == "unsat":
                by[r["backend"]] = by.get(r["backend"], 0) + 1
            else:
                open_.append(f"{c}: {r['name']} [path {r['path']}]: {r['verdict']}")
        for u in rep.get("undecided", []):
            open_.append(f"{c}: {u}")
        if rep.get("error"):
            open_.append(f"{c}: {rep['error']}")
        per[c] = {"function": rep.get("target"), "obligations": n, "discharged": d, "paths": rep.get("paths"), "symbolic_execution_s": rep.get("symexec_s"),
                  "precondition": rep.get("precondition"), "functions_executed": rep.get("funcs"), "callee_contracts_used": rep.get("used_contracts")}
        trusted |= set(rep.get("trusted") or [])
        assumptions |= set(rep.get("tainted") or [])
        funcs |= set(rep.get("funcs") or [])
    m = {}
    try:
        m = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    except (OSError, ValueError):
        pass
    level = m.get(prop, {}).get("level", "proof")
    ran = sum(c["ran"] for c in nr["contracts"].values())
    dist = sum(c["distinct"] for c in nr["contracts"].values())
    cov = {
        "obligations": obs, "discharged": dis,
        "checker_cmd": f"cd /verif && python3-vt -m pyvc.prover {prop}",
        "trusted_base": sorted({"pyvc: the verification condition generator in /verif/pyvc (symbolic execution of the real Python AST)",
                                "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2"} | trusted),
        "functions_under_contract": sorted({r.get("target") or "?" for r in pr["contracts"].values()}),
        "functions_symbolically_executed": sorted(funcs),
        "by_back_end": by, "solver_s": pr.get("solver_s"), "prover_wall_s": pr.get("wall_s"),
        "contracts": per, "not_discharged": open_,
        "assumed_contracts": [c for c in mine if idx[c].get("assumed")],
        "evaluations": ran, "distinct_nontrivial": dist,
        "rule": "bounded part: every contract of the property evaluated on the real code with seeded random arguments; a case is counted as "
                "distinct and non-trivial when its printed arguments differ from all earlier ones and the precondition holds",
        "bounded_contracts": {c: {k: v for k, v in r.items() if k != "sample"} for c, r in nr["contracts"].items()},
        "samples": [{"contract": c, "case": r["sample"]} for c, r in nr["contracts"].items()][:3],
        "explanation": "obligations/discharged count the proof part (all inputs); evaluations/distinct_nontrivial count the bounded native "
                       "evaluation of the same contracts, which also stands in for clauses listed under not_discharged",
        "runner_errors": nr["errors"][:5],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["machine floats are treated as mathematical reals in the proofs (the native evaluation uses the real floats, with tolerance 1e-9)",
                          "library calls (numpy, pandas, scipy, statsmodels, matplotlib, pydantic) follow the axioms of /verif/pyvc listed in trusted_base"]
          + sorted(assumptions) + notes,
          "wall_s": round(time.time() - t0, 1), "violations": len(lines)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
