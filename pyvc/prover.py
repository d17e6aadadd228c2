"""Prove every contract of a property:  python3-vt -m pyvc.prover C01 [--contracts a,b] [--out F] [--budget S]

Symbolic execution of the real functions (one process per contract) writes one SMT-LIB file per proof obligation; a portfolio of
solvers then has to refute each negated obligation."""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

# (name, command, seconds)
PORTFOLIO = [
    ("z3", ["z3-new", "-smt2"], 4),
    ("z3-g", ["z3-new", "-smt2"], 4),
    ("z3-m-i", ["z3-new", "-smt2"], 5),
    ("z3-s2", ["z3-new", "-smt2", "smt.random_seed=2", "sat.random_seed=2"], 4),
    ("cvc5-enum", ["cvc5", "--lang=smt2", "--enum-inst"], 5),
    ("cvc5", ["cvc5", "--lang=smt2"], 5),
    ("cvc5-g", ["cvc5", "--lang=smt2"], 5),
    ("z3-i", ["z3-new", "-smt2", "smt.auto_config=false", "smt.mbqi=false"], 10),
    ("z3-nombqi", ["z3-new", "-smt2", "smt.auto_config=false", "smt.mbqi=false"], 8),
    ("z3-nombqi-g", ["z3-new", "-smt2", "smt.auto_config=false", "smt.mbqi=false"], 8),
    ("z3-seed", ["z3-new", "-smt2", "smt.random_seed=7", "smt.arith.solver=6"], 12),
    ("z3-seed-g", ["z3-new", "-smt2", "smt.random_seed=7", "smt.arith.solver=6"], 12),
    ("z3-s11", ["z3-new", "-smt2", "smt.random_seed=11", "sat.random_seed=11"], 6),
    ("cvc5-nl", ["cvc5", "--lang=smt2", "--enum-inst", "--nl-ext-tplanes"], 15),
    ("z3-old", ["z3", "-smt2"], 15),
    ("z3-long", ["z3-new", "-smt2"], 30),
]


def contract_index():
    """contract ids and their properties, without executing anything"""
    import ast

    out = {}
    cdir = os.path.join(VERIF, "contracts")
    for fn in sorted(os.listdir(cdir)):
        if not fn.endswith(".py") or fn == "__init__.py":
            continue
        for st in ast.parse(open(os.path.join(cdir, fn)).read()).body:
            if isinstance(st, ast.ClassDef):
                at = {}
                for x in st.body:
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                        try:
                            at[x.targets[0].id] = ast.literal_eval(x.value)
                        except ValueError:
                            pass
                if "target" in at:
                    out[f"{fn[:-3]}.{st.name}"] = at
    return out


def serve(C, todo, want, parent):
    """write the instantiated form of an obligation when a solver asks for it (a costly encoding few obligations need)"""
    todo = dict(todo)
    while os.path.isdir(want) and os.getppid() == parent:
        ks = sorted(os.listdir(want))
        n = 0
        for k in ks:
            try:
                os.rename(os.path.join(want, k), f"{todo[k][1][:-5]}.asked")  # one of the servers takes it
            except (OSError, KeyError):
                continue
            n += 1
            p = todo[k][1][:-5]
            pid = os.fork()  # every obligation is instantiated from the same state, whatever was asked before
            if pid:
                os.waitpid(pid, 0)
                if not os.path.exists(p + ".i.smt2"):
                    open(p + ".noinst", "w").close()  # one strategy less
                continue
            try:
                with open(p + ".tmp", "w") as f:
                    f.write(C.smt2_inst(todo[k][0]))
                os.rename(p + ".tmp", p + ".i.smt2")
            finally:
                os._exit(0)
        if not n:
            time.sleep(0.05)


def symexec(cid, outdir, deadline, q):
    sys.setrecursionlimit(20000)
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        from pyvc import contract as C

        w = C.fresh_world()
        mod, nm = cid.split(".")
        con = [c for c in w.contracts(mod) if c.name == nm][0]
        C.register_modular(w, con)
        rep = C.verify(con, w, deadline)
        files, seen, todo = [], set(), []
        for k, o in enumerate(rep.pop("obls")):
            text = o.smt2()
            if (o.name, text) in seen:
                continue  # the same question on another path
            seen.add((o.name, text))
            p = os.path.join(outdir, f"{cid}.{k}.smt2")
            open(p, "w").write(text)
            open(p[:-5] + ".g.smt2", "w").write(o.smt2(True))
            files.append((o.name, o.path, p))
            todo.append((o, p))
        del seen
        want = os.path.join(outdir, f"{cid}.want")
        os.mkdir(want)
        todo = [(os.path.basename(p), (o, p)) for o, p in todo]
        cov = rep.pop("cover", None)
        if cov is not None:
            p = os.path.join(outdir, f"{cid}.cover.smt2")
            open(p, "w").write(C.Obligation("cover", cov, C.z3.BoolVal(False), 0).smt2())
            rep["cover_file"] = p
        rep["files"] = files
        for _ in range(2):
            if todo and os.fork() == 0:
                serve(C, todo, want, os.getppid())
                os._exit(0)
        q.put(rep)
        while todo and os.path.isdir(want) and os.getppid() != 1:
            time.sleep(0.2)
    except BaseException as e:  # noqa: BLE001
        import traceback

        q.put({"contract": cid, "target": "?", "error": f"engine: {type(e).__name__}: {e}", "tb": traceback.format_exc(limit=-6), "files": [], "undecided": []})


def run_symexec(cid, outdir, deadline, alive):
    q = mp.Queue()
    p = mp.Process(target=symexec, args=(cid, outdir, deadline, q))
    p.start()
    t0 = time.time()
    rep = None
    while time.time() - t0 < deadline + 60:
        try:
            rep = q.get(timeout=0.5)
            break
        except Exception:  # noqa: BLE001
            if not p.is_alive() and q.empty():
                break
    if rep is None or rep.get("error"):
        p.kill()
        p.join()
    else:
        alive.append(p)  # keeps answering requests for instantiated obligations
    return rep or {"contract": cid, "target": "?", "error": "engine: symbolic execution ran out of time or memory", "files": [], "undecided": []}


def variant(name, path, t_end):
    """the file a strategy works on, or None"""
    base = path[:-5]
    if name.endswith("-g"):
        return base + ".g.smt2" if os.path.exists(base + ".g.smt2") else None
    if not name.endswith("-i"):
        return path
    if base.endswith(".cover"):
        return None
    f = base + ".i.smt2"
    if not os.path.exists(f) and not os.path.exists(base + ".asked"):
        try:
            open(os.path.join(f"{base.rsplit('.', 1)[0]}.want", os.path.basename(path)), "w").close()
        except OSError:
            return None
    t = min(time.time() + 40, t_end)
    while not os.path.exists(f):
        if time.time() > t or os.path.exists(base + ".noinst"):
            return None
        time.sleep(0.03)
    return f


def solve(path, t_end, scale=1.0):
    """(verdict, back end, seconds): 'unsat' = proved"""
    t0 = time.time()
    last = "unknown"
    for name, cmd, sec in PORTFOLIO:
        left = t_end - time.time()
        if left < 1:
            break
        sec = min(sec * scale, left)
        f = variant(name, path, t_end)
        if f is None:
            continue
        try:
            r = subprocess.run(cmd + [f], capture_output=True, text=True, timeout=sec)
            first = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "error"
        except subprocess.TimeoutExpired:
            first = "timeout"
        if first == "unsat":
            return "unsat", name, round(time.time() - t0, 2)
        if first == "sat":
            last = "sat"
            if name.startswith("z3") and not name.endswith("-i") and name != "z3-nombqi":
                return "sat", name, round(time.time() - t0, 2)
    return last, None, round(time.time() - t0, 2)


def prove(prop=None, contracts=None, budget=300, jobs=8, scale=1.0, keep=None):
    t0 = time.time()
    idx = contract_index()
    todo = [c for c, at in idx.items() if (prop is None or prop in at.get("props", [])) and (not contracts or c in contracts)
            and not at.get("native_only") and not at.get("assumed")]
    done, out = set(), {"contracts": {}}
    d = keep or tempfile.mkdtemp(prefix="pyvc.")
    os.makedirs(d, exist_ok=True)
    solver_s = 0.0
    alive = []
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            pend = {}
            sym = {ex.submit(run_symexec, c, d, idx[c].get("deadline", min(150, budget * 0.5)), alive): c for c in todo}
            done |= set(todo)
            while sym or pend:
                fs, _ = cf.wait(list(sym) + list(pend), return_when=cf.FIRST_COMPLETED)
                for f in fs:
                    if f in sym:
                        c = sym.pop(f)
                        rep = f.result()
                        rep["results"] = []
                        out["contracts"][c] = rep
                        for name, path, file in rep.pop("files"):
                            pend[ex.submit(solve, file, t0 + budget, scale)] = (c, name, path, file)
                        if rep.get("cover_file"):
                            pend[ex.submit(solve, rep.pop("cover_file"), time.time() + 20, 0.5)] = (c, None, None, None)
                        for u in rep.get("used_contracts", []):
                            if u in idx and u not in done and not contracts and not idx[u].get("assumed"):
                                done.add(u)
                                sym[ex.submit(run_symexec, u, d, min(150, budget * 0.5), alive)] = u
                    else:
                        c, name, path, file = pend.pop(f)
                        v, be, sec = f.result()
                        solver_s += sec
                        if name is None:
                            out["contracts"][c]["precondition"] = {"unsat": "CONTRADICTORY", "sat": "satisfiable"}.get(v, "not refuted")
                        else:
                            out["contracts"][c]["results"].append({"name": name, "path": path, "verdict": v, "backend": be, "seconds": sec,
                                                                   "file": os.path.basename(file)})
    finally:
        for p in alive:
            p.kill()
            p.join()
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    out["wall_s"] = round(time.time() - t0, 1)
    out["solver_s"] = round(solver_s, 1)
    for rep in out["contracts"].values():
        rep["results"].sort(key=lambda r: (r["name"], r["path"]))
        rep.pop("obligations", None)
    return out


def clauses(rep):
    """proof status per clause of a contract: a clause is proved when all its obligations on all paths are discharged"""
    st = {}
    if rep.get("precondition") == "CONTRADICTORY":
        return {}
    for r in rep["results"]:
        st.setdefault(r["name"], []).append(r["verdict"] == "unsat")
    return {k: all(v) for k, v in st.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--contracts")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep")
    a = ap.parse_args()
    rep = prove(a.prop, a.contracts.split(",") if a.contracts else None, a.budget, a.jobs, a.scale, a.keep)
    if a.out:
        json.dump(rep, open(a.out, "w"), indent=1)
    else:
        for c, r in rep["contracts"].items():
            n = len(r["results"])
            ok = sum(x["verdict"] == "unsat" for x in r["results"])
            print(f"{c} ({r['target']}): {ok}/{n} discharged, paths {r.get('paths')}, symexec {r.get('symexec_s')}s, pre {r.get('precondition')}, error {r.get('error')}, undecided {r.get('undecided')}")
            for x in r["results"]:
                print("   ", x["verdict"], x["backend"], x["seconds"], x["name"], "path", x["path"])
            if r.get("error"):
                print(re.sub("^", "   | ", (r.get("tb") or ""), flags=re.M))
        print("wall", rep["wall_s"], "solver", rep["solver_s"])


if __name__ == "__main__":
    main()
