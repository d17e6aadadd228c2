"""Evaluate contracts natively on generated cases:  run.py --prop C01 --seed 1 --seconds 30 [--contracts a,b] --out F | --replay F"""
from __future__ import annotations

import argparse
import json
import os
import sys
import time
import traceback

os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rt  # noqa: E402

rt.setup_repo()
rt.install()
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import gens  # noqa: E402


def short(v, depth=0):
    import numpy as np
    import pandas as pd

    if isinstance(v, pd.DataFrame):
        return f"DataFrame(cols={list(v.columns)}, index={list(v.index[:5])}.., n={len(v)}, head={v.head(4).to_numpy().tolist()})"
    if isinstance(v, np.ndarray):
        return f"array(shape={v.shape}, {np.array2string(v.ravel()[:8], precision=6)})"
    if isinstance(v, dict) and depth < 3:
        return {str(k): short(x, depth + 1) for k, x in list(v.items())[:12]}
    if isinstance(v, (list, tuple)) and depth < 3:
        return [short(x, depth + 1) for x in v[:12]]
    if hasattr(v, "samples") and hasattr(v, "walkers"):
        return {"chain": v.name, "walkers": v.walkers, "statistics": str(v.statistics), "weight_column": v.weight_column, "samples": short(v.samples)}
    if hasattr(v, "_chains"):
        return {"consumer": {k: short(c, depth + 1) for k, c in v._chains.items()}}
    if hasattr(v, "parent"):
        return short(v.parent, depth + 1)
    return repr(v)[:300]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--contracts")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--max", type=int, default=400)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        con = dict(rt.contract_classes())[r["contract"]]
        case = gens.make(r["contract"], con, r["seed"], r["index"])
        print("case:", json.dumps(short(case), indent=1, default=str)[:3000])
        try:
            msg = rt.run_case(con, case)
        except rt.Skip:
            msg = "precondition not met"
        print("outcome:", msg or "contract holds")
        sys.exit(1 if msg else 0)
    cons = rt.contract_classes(a.prop)
    if a.contracts:
        cons = [c for c in cons if c[0] in a.contracts.split(",")]
    rep = {"contracts": {}, "violations": [], "errors": []}
    cons = [c for c in cons if gens.has(c[0], c[1])]
    # interleave the contracts so that each gets its share of the time
    t_end = time.time() + a.seconds
    state = {cid: dict(i=0, ran=0, skipped=0, nontrivial=set(), done=False, t=0.0, sample=None) for cid, _ in cons}
    seen = 0
    while time.time() < t_end and not all(s["done"] for s in state.values()):
        cid, con = min(((c, k) for c, k in cons if not state[c]["done"]), key=lambda ck: state[ck[0]]["t"])
        s = state[cid]
        t0 = time.time()
        idx = s["i"]
        s["i"] += 1
        try:
            case = gens.make(cid, con, a.seed, idx)
            if s["sample"] is None:
                s["sample"] = short(case)
            s["nontrivial"].add(json.dumps(short(case), default=str)[:4000])
            msg = rt.run_case(con, case)
            s["ran"] += 1
            if msg:
                rep["violations"].append({"contract": cid, "target": con.target, "seed": a.seed, "index": idx, "message": msg,
                                          "input": short(gens.make(cid, con, a.seed, idx))})
                s["done"] = True
        except rt.Skip:
            s["skipped"] += 1
        except StopIteration:
            s["done"] = True
        except Exception as e:  # noqa: BLE001 - the specification or generator failed, or the code broke set-up
            rep["errors"].append({"contract": cid, "index": idx, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc(limit=-6)})
            if len([x for x in rep["errors"] if x["contract"] == cid]) > 3:
                s["done"] = True
        s["t"] += time.time() - t0
        if s["i"] >= a.max:
            s["done"] = True
    for cid, _ in cons:
        s = state[cid]
        rep["contracts"][cid] = dict(ran=s["ran"], skipped=s["skipped"], distinct=len(s["nontrivial"]), seconds=round(s["t"], 1), sample=s["sample"])
    text = json.dumps(rep, indent=1, default=str)
    if a.out:
        open(a.out, "w").write(text)
    else:
        print(text[:6000])


if __name__ == "__main__":
    main()
