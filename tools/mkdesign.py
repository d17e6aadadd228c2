"""Fill the generated part of DESIGN.md (contract table, planted changes) from baseline.json, the contracts and seeded/ (development helper)."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc.prover import contract_index  # noqa: E402

BEGIN, END = "<!-- generated: tools/mkdesign.py -->", "<!-- end generated -->"


def main():
    base = json.load(open(os.path.join(V, "baseline.json")))
    idx = contract_index()
    out = [BEGIN, "", "### Contracts and their status", "",
           "`proved n` = all n clauses (postconditions, loop invariants, callee preconditions, freedom from exceptions) are discharged for all inputs; "
           "`proved n, open m` = m clauses are only evaluated on generated inputs; `bounded` = native evaluation only.", "",
           "| contract | function under contract | properties | status |", "|---|---|---|---|"]
    for c, a in sorted(idx.items()):
        b = base.get(c)
        if a.get("native_only") or not b:
            st = "bounded" if not a.get("assumed") else "assumed"
        elif b["complete"]:
            st = f"proved {len(b['proved'])}"
        else:
            st = f"proved {len(b['proved'])}, open {len(b['open'])}"
        out.append(f"| {c} | {a.get('target')} | {', '.join(a.get('props', []))} | {st} |")
    out += ["", "### Planted changes (`seeded/`) and what catches them", "",
            "| planted change | breaks | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    p = os.path.join(V, "tools", "caught.json")
    if os.path.exists(p):
        caught = json.load(open(p))
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        s = os.path.basename(d)
        m = json.load(open(os.path.join(d, "meta.json")))
        out.append(f"| {s} | {m['what_it_breaks']} | {m['needs']} | {caught.get(s, 'not run yet')} |")
    out += ["", END]
    f = os.path.join(V, "DESIGN.md")
    t = open(f).read()
    i, j = t.index(BEGIN), t.index(END) + len(END)
    open(f, "w").write(t[:i] + "\n".join(out) + t[j:])


main()
