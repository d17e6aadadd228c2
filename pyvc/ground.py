"""Skolemise an obligation and add ground instances of its integer quantifiers at the integer terms that occur in it (sound: only consequences are added)."""
from __future__ import annotations

import itertools
import time

import z3

from .reduce import instances

_n = itertools.count()


def nnf(f, pos, env):
    """negation normal form with positive existentials replaced by skolem terms over the enclosing universals (env)"""
    if z3.is_not(f):
        return nnf(f.arg(0), not pos, env)
    if z3.is_and(f) or z3.is_or(f):
        ch = [nnf(c, pos, env) for c in f.children()]
        return z3.And(*ch) if z3.is_and(f) == pos else z3.Or(*ch)
    if z3.is_implies(f):
        a, b = nnf(f.arg(0), not pos, env), nnf(f.arg(1), pos, env)
        return z3.Or(a, b) if pos else z3.And(a, b)
    if z3.is_quantifier(f) and not f.is_lambda():
        univ = f.is_forall() == pos
        vs = []
        for i in range(f.num_vars()):
            nm = f"{'u' if univ else 's'}!{f.var_name(i)}!{next(_n)}"
            if univ or not env:
                vs.append(z3.Const(nm, f.var_sort(i)))
            else:
                fn = z3.Function(nm, *[v.sort() for v in env], f.var_sort(i))
                vs.append(fn(*env))
        body = z3.substitute_vars(f.body(), *reversed(vs))
        if univ:
            b = nnf(body, pos, env + vs)
            if z3.is_or(b):
                qs = [c for c in b.children() if z3.is_quantifier(c)]
                if len(qs) == 1:
                    q = qs[0]
                    us = [z3.Const(f"u!{q.var_name(i)}!{next(_n)}", q.var_sort(i)) for i in range(q.num_vars())]
                    rest = [c for c in b.children() if not z3.is_quantifier(c)]
                    return z3.ForAll(vs + us, z3.Or(*rest, z3.substitute_vars(q.body(), *reversed(us))))
            return z3.ForAll(vs, b)
        return nnf(body, pos, env)
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(f):
        c, a, b = f.children()
        return z3.And(z3.Or(nnf(c, False, env), nnf(a, pos, env)), z3.Or(nnf(c, True, env), nnf(b, pos, env)))
    return f if pos else z3.Not(f)


def conj(f, out):
    if z3.is_and(f):
        for c in f.children():
            conj(c, out)
    else:
        out.append(f)
    return out


def int_terms(fs, sk, cap):
    """integer terms to instantiate at: skolem constants, then the ground index terms of the problem"""
    from .reduce import index_terms

    seen, sko = set(), []

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            go(t.body())
        elif z3.is_app(t):
            if z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                nm = t.decl().name()
                if nm.startswith("s!") or ("!" in nm and not nm.startswith(("u!", "w_"))):
                    sko.append(t)
            for c in t.children():
                go(c)

    for f in sk:
        go(f)
    out, ids = [], set()
    for t in sko[:cap] + [t for t in index_terms(fs, cap + 6) if ".shape" not in t.sexpr()][:cap]:
        if t.get_id() not in ids:
            ids.add(t.get_id())
            out.append(t)
    return out


def tuples(cands, k, cap):
    """tuples of candidates, those of the best ranked terms first"""
    if k == 1:
        return [(c,) for c in cands]
    n = len(cands)
    ix = sorted(itertools.product(range(n), repeat=k), key=lambda t: (sum(t), t)) if n ** k <= 40000 else itertools.islice(itertools.product(range(n), repeat=k), cap)
    return [tuple(cands[i] for i in t) for t in itertools.islice(ix, cap)]


def instantiate(f, cands, budget):
    """ground instances of the (positive) universals of an nnf formula: the formula with each universal replaced by the conjunction of its instances"""
    if z3.is_and(f):
        return z3.And(*[instantiate(c, cands, budget) for c in f.children()])
    if z3.is_or(f):
        return z3.Or(*[instantiate(c, cands, budget) for c in f.children()])
    if z3.is_quantifier(f) and f.is_forall():
        if any(f.var_sort(i) != z3.IntSort() for i in range(f.num_vars())):
            return f
        out = []
        for tup in tuples(cands, f.num_vars(), budget[0]):
            budget[0] -= 1
            if budget[0] < 0:
                break
            g = z3.simplify(z3.substitute_vars(f.body(), *reversed(tup)))
            if z3.is_true(g):
                continue
            out.append(instantiate(g, cands, budget))
            if z3.is_false(out[-1]):
                break
        return z3.And(*out) if out else z3.BoolVal(True)
    return f


def has_quant(f, memo):
    i = f.get_id()
    if i not in memo:
        memo[i] = z3.is_quantifier(f) or any(has_quant(c, memo) for c in f.children())
    return memo[i]


def grounded(fs, axioms, cap=9, limit=1500):
    """the formulas in skolemised form, followed by ground instances of their universals"""
    sk = []
    memo = {}
    for f in fs:
        mark = len(sk)
        conj(nnf(f, True, []) if has_quant(f, memo) else f, sk)
    goal_side, nfs = set(range(mark, len(sk))), len(sk)
    base = int_terms(fs, sk, cap)
    cands, seen = [], set()
    for t in base + [z3.IntVal(0)] + [x for b in base for x in (b - 1, b + 1)]:
        u = z3.simplify(t)
        if u.get_id() not in seen:
            seen.add(u.get_id())
            cands.append(u)
    inst = []
    memo = {}
    t0 = time.time()
    for k, f in enumerate(sk):
        if has_quant(f, memo) and time.time() - t0 < 2:
            inst.append(instantiate(f, cands, [limit if k in goal_side else (300 if k < nfs else 100)]))
    return sk + list(axioms), inst + instances([f for f in sk if not has_quant(f, memo)])
