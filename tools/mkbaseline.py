"""Record which clauses are proved on the unchanged tree:  mkbaseline.py [C01 C02 ...]  (run by hand; the result is committed)"""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import env  # noqa: E402

props = sys.argv[1:] or [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
bp = os.path.join(V, "baseline.json")
base = json.load(open(bp)) if os.path.exists(bp) else {}
for p in props:
    out = tempfile.mktemp()
    subprocess.run(["python3-vt", "-m", "pyvc.prover", p, "--out", out, "--budget", "330", "--jobs", "7"], env=env(), cwd=V)
    rep = json.load(open(out))
    os.unlink(out)
    for c, r in rep["contracts"].items():
        st, slow = {}, set()
        for x in r["results"]:
            st.setdefault(x["name"], []).append(x["verdict"] == "unsat")
            if x["seconds"] > 25:
                slow.add(x["name"])
        if r.get("error") or r.get("precondition") == "CONTRADICTORY":
            base.pop(c, None)
            print(c, "ERROR", r.get("error"), r.get("precondition"))
            continue
        proved = sorted(k for k, v in st.items() if all(v) and k not in slow)
        opn = sorted(k for k in st if k not in proved)
        base[c] = {"target": r["target"], "proved": proved, "open": opn, "undecided": r.get("undecided", []), "complete": not opn and not r.get("undecided")}
        print(p, c, f"proved {len(proved)} clauses; open {opn}; undecided {r.get('undecided')}; symexec {r.get('symexec_s')}")
    json.dump(base, open(bp, "w"), indent=1, sort_keys=True)
