"""Loops cut at a stated invariant: entry, preservation by one arbitrary iteration, and use after the loop."""
from __future__ import annotations

import ast

import z3

from .core import *  # noqa
from .interp import Brk, Cont, Poison
from .loops import I_, havoc_value, kind_of, toiter


class EndPath(Exception):
    """this path has established its obligations and goes no further"""


def targets(stmts):
    """names stored to by the statements"""
    out = set()
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and isinstance(x, ast.FunctionDef):
                out.add(x.name)
    return out


def loops_of(node):
    """the loops of a function in source order, nested functions excluded"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            go(c)

    go(node)
    return out


class LoopInv:
    def __init__(self, con, idx, fname, kinds, base):
        self.con, self.idx, self.fname, self.kinds, self.base = con, idx, fname, kinds, base

    def formulas(self, I, env, done):
        from .contract import conjuncts

        fn = self.con.fns[self.fname]
        d = {}
        for a in fn.args.args:
            if a.arg == "done":
                d["done"] = done
            elif a.arg == "old":
                d["old"] = self.base.get("old")
            else:
                try:
                    d[a.arg] = I.lookup(a.arg, env)
                except PyRaise:
                    raise Unsupported(f"the invariant of loop {self.idx} speaks of {a.arg}, which is not bound there")
        return conjuncts(I, self.con.spec(I, self.fname, d))

    def bind(self, I, env):
        """declared names that the body binds have an arbitrary value before the first iteration"""
        for n, k in self.kinds.items():
            if n not in env.c:
                v, _ = havoc_value(set(k.split("|")), f"{n}~")
                env.set(n, v)

    def check(self, I, env, done, what):
        for j, g in enumerate(self.formulas(I, env, done)):
            ctx.obligations.append((f"loop {self.idx} {what}[{j}]", list(ctx.pcf()), B(g)))

    def assume(self, I, env, done):
        for g in self.formulas(I, env, done):
            ctx.assume(B(g))

    def havoc(self, I, env, names):
        for n in sorted(names):
            if n not in env.c:
                continue
            kinds = self.kinds.get(n)
            cur = env.c[n]
            if kinds is None:
                ks = kind_of(cur) if not isinstance(cur, Poison) else {"other"}
            else:
                ks = set(kinds.split("|"))
            v, _ = havoc_value(ks, f"{n}~")
            if v is None and ks != {"none"}:
                v = Poison(f"loop carried {n}")
            env.set(n, v)


def drop(env, names, before):
    """names first bound in the loop body are not known outside one iteration"""
    for n in names:
        if n not in before:
            env.set(n, Poison("bound in the loop body"))


def guard_frame(env, names, run):
    snap = [(c, c.c) for c in ctx.cells if c is not env]
    keep = {k: v for k, v in env.c.items() if k not in names}
    run()
    for c, v in snap:
        if c.c is not v:
            raise Unsupported("the loop body changes an existing object")
    for k, v in keep.items():
        if env.c.get(k) is not v:
            raise Unsupported("the loop body changes a name in an unseen way")


def exec_for_inv(I, st, env, li):
    it = toiter(I, I.eval(st.iter, env))
    parts = [p for p in it.parts if not (p[0] == "c" and not p[1])]
    if len(parts) != 1 or parts[0][0] != "f":
        raise Unsupported("a loop with an invariant over a composite sequence")
    fam = parts[0][1]
    names = targets(st.body) | targets([ast.Expr(st.target)])
    before = set(env.c) | set(li.kinds)
    n = I_(fam.n)
    n = z3.If(n > 0, n, z3.IntVal(0))
    li.bind(I, env)
    li.check(I, env, z3.IntVal(0), "invariant on entry")
    li.havoc(I, env, names)
    if I.decide(ctx.fresh("iteration", Bool)):
        k = ctx.fresh("done", Int)
        ctx.assume(And(0 <= k, k < n))
        drop(env, names, before)
        li.assume(I, env, k)

        def run():
            for g, v in fam.items(k):
                if not I.decide(g):
                    continue
                try:
                    I.assign(st.target, v, env)
                    I.exec_block(st.body, env)
                except Cont:
                    pass

        try:
            guard_frame(env, names, run)
        except Brk:
            return
        li.check(I, env, k + 1, "invariant kept")
        raise EndPath()
    drop(env, names, before)
    li.assume(I, env, n)
    I.exec_block(st.orelse, env)


def exec_while_inv(I, st, env, li):
    names = targets(st.body)
    li.bind(I, env)
    before = set(env.c)
    li.check(I, env, z3.IntVal(0), "invariant on entry")
    li.havoc(I, env, names)
    k = ctx.fresh("done", Int)
    ctx.assume(0 <= k)
    drop(env, names, before)
    li.assume(I, env, k)
    if I.truth(I.eval(st.test, env)):
        def run():
            try:
                I.exec_block(st.body, env)
            except Cont:
                pass

        try:
            guard_frame(env, names, run)
        except Brk:
            return
        li.check(I, env, k + 1, "invariant kept")
        raise EndPath()
    I.exec_block(st.orelse, env)
