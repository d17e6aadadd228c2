"""Reductions over symbolic index ranges as interned symbols with defining axioms."""
from __future__ import annotations

import z3

from .core import (known_positive, And, B, Bool, I, If, Implies, Int, Not, Or, R, Real, Str, Symbol, conc_bool, ctx, from_poly, intern, is_z3,
                   mono_term, num_const, ph, poly, subst, Unsupported, consts_in, mentions, rat, _atoms, _padd, _pmul, _poly)

P0 = ph(Int, 0)


def body_at(f, sort=None):
    """evaluate closure f at a fresh generic index; return term over placeholder P0"""
    k = ctx.new_generic("b")
    ctx.generics.append(k)
    try:
        e = f(k)
    finally:
        ctx.generics.pop()
    return k, e


def canon(k, e):
    return subst(e, (k, P0))


def arith(e):
    """canonical arithmetic form of a Real term"""
    if is_z3(e) and e.sort() == Real:
        return from_poly(poly(e))
    return e


class SumSym(Symbol):
    def congruence(self, o):
        p = [z3.Const(f"cp{i}", x.sort()) for i, x in enumerate(self.params)]
        q = [z3.Const(f"cq{i}", x.sort()) for i, x in enumerate(o.params)]
        t = z3.Int("ct")
        fa = lambda i: subst(self.bodies[0], *zip(self.params, p), (P0, i))
        fb = lambda i: subst(o.bodies[0], *zip(o.params, q), (P0, i))
        wf = z3.Function(f"w_{self.name}_{o.name}", *[x.sort() for x in p + q], Int, Int)
        w = wf(*p, *q, t)
        a, b = self.at(p)(t), o.at(q)(t)
        f = z3.Or(a == b, z3.And(0 <= w, w < t, fa(w) != fb(w)))
        return [z3.ForAll(p + q + [t], f, patterns=[z3.MultiPattern(a, b)])]


def _sum_ax(s, params):
    C = s.at(params)
    f = lambda i: subst(s.bodies[0], (P0, i))
    t, u = z3.Int("st"), z3.Int("su")
    out = []
    w1 = z3.Function(f"w1_{s.name}", *[p.sort() for p in params], Int, Int)
    w2 = z3.Function(f"w2_{s.name}", *[p.sort() for p in params], Int, Int)
    w3 = z3.Function(f"w3_{s.name}", *[p.sort() for p in params], Int, Int, Int)
    a1, a2 = w1(*params, t), w2(*params, t)
    out.append(z3.ForAll([t], z3.Implies(t <= 0, C(t) == 0), patterns=[C(t)]))
    out.append(z3.ForAll([t], z3.Or(t <= 0, C(t) >= 0, z3.And(0 <= a1, a1 < t, f(a1) < 0)), patterns=[C(t)]))
    out.append(z3.ForAll([t], z3.Or(t <= 0, C(t) > 0, z3.And(0 <= a2, a2 < t, f(a2) <= 0)), patterns=[C(t)]))
    out.append(z3.ForAll([t], z3.Implies(t == 1, C(t) == f(z3.IntVal(0))), patterns=[C(t)]))
    a3 = w3(*params, t, u)
    out.append(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t <= u),
                                            z3.Or(C(t) <= C(u), z3.And(t <= a3, a3 < u, f(a3) < 0))),
                         patterns=[z3.MultiPattern(C(t), C(u))]))
    out.append(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, u == t + 1), C(u) == C(t) + f(t)),
                         patterns=[z3.MultiPattern(C(t), C(u))]))
    return out


class _Wrap(Symbol):
    pass


def sum_mono(mono, k):
    """prefix sum function of a single canonical monomial body (over generic k)"""
    body = subst(mono, (k, P0))
    s, gens = intern("SUM", [body], [((Int,), Real)], None, cls=SumSym)
    s.axgen = None
    if not hasattr(s, "_gen"):
        s._gen = True

        def axioms(s=s):
            if s._ax is None:
                s._ax = []
                base = _sum_ax(s, s.params)
                for f in base:
                    if s.params:
                        # merge the quantifiers
                        vs = [z3.Const(f"{f.var_name(i)}", f.var_sort(i)) for i in range(f.num_vars())]
                        inner = z3.substitute_vars(f.body(), *reversed(vs))
                        pats = []
                        for j in range(f.num_patterns()):
                            pt = f.pattern(j)
                            ts = [z3.substitute_vars(c, *reversed(vs)) for c in pt.children()]
                            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
                        s._ax.append(z3.ForAll(list(s.params) + vs, inner, patterns=pats))
                    else:
                        s._ax.append(f)
            return s._ax

        s.axioms = axioms
    return s.at(gens)


def SUM(f, n, const_limit=8):
    """sum_{0<=i<n} f(i) for a closure f; n int or Int term"""
    c = num_const(n)
    if c is not None and c <= const_limit:
        out = z3.RealVal(0)
        for i in range(int(c)):
            out = out + R(f(i))
        return arith(out)
    k, e = body_at(lambda i: R(f(i)))
    p = poly(e)
    total = {}
    terms = []
    for m, coef in p.items():
        dep = [a for a in m if mentions(_atoms[a], [k])]
        ind = [a for a in m if a not in dep]
        outer = from_poly({tuple(ind): coef})
        if not dep:
            terms.append(outer * R(count_of(n)))
        else:
            terms.append(outer * sum_mono(from_poly({tuple(sorted(dep)): 1}), k)(I(n)))
    if not terms:
        return z3.RealVal(0)
    r = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    return arith(r)


def PREFIX(f, n=None):
    """closure j -> sum_{i<j} f(i) (exclusive prefix)"""
    k, e = body_at(lambda i: R(f(i)))
    p = poly(e)
    parts = []
    for m, coef in p.items():
        dep = [a for a in m if mentions(_atoms[a], [k])]
        ind = [a for a in m if a not in dep]
        outer = from_poly({tuple(ind): coef})
        if not dep:
            parts.append((outer, None))
        else:
            parts.append((outer, sum_mono(from_poly({tuple(sorted(dep)): 1}), k)))

    def at(j):
        out = []
        for o, g in parts:
            out.append(o * (R(j) if g is None else g(I(j))))
        if not out:
            return z3.RealVal(0)
        return arith(out[0] if len(out) == 1 else z3.Sum(*out))

    return at


# ---------------------------------------------------------------- extrema


class ExtSym(Symbol):
    def congruence(self, o):
        p = [z3.Const(f"cp{i}", x.sort()) for i, x in enumerate(self.params)]
        q = [z3.Const(f"cq{i}", x.sort()) for i, x in enumerate(o.params)]
        sa = lambda e, i=None: subst(e, *zip(self.params, p), *([(P0, i)] if i is not None else []))
        sb = lambda e, i=None: subst(e, *zip(o.params, q), *([(P0, i)] if i is not None else []))
        wf = z3.Function(f"w_{self.name}_{o.name}", *[x.sort() for x in p + q], Int) if p + q else None
        w = wf(*p, *q) if wf is not None else z3.Int(f"w_{self.name}_{o.name}")
        out = []
        na, nb = sa(self.bodies[0]), sb(o.bodies[0])
        differ = [sa(x, w) != sb(y, w) for x, y in zip(self.bodies[1:], o.bodies[1:])]
        for j in range(len(self.sorts)):
            if self.sorts[j][0]:
                continue
            a, b = self.at(p, j), o.at(q, j)
            f = z3.Or(a == b, na != nb, z3.And(0 <= w, w < na, z3.Or(*differ) if differ else z3.BoolVal(False)))
            out.append(z3.ForAll(p + q, f, patterns=[z3.MultiPattern(a, b)]) if p + q else f)
        return out


def _ext_ax(kind):
    def ax(s, params):
        n = s.bodies[0]
        f = lambda i: subst(s.bodies[1], (P0, i))
        g = lambda i: subst(s.bodies[2], (P0, i))
        M, a = s.at(params, 0), s.at(params, 1)
        i = z3.Int("xi")
        rng = z3.And(0 <= i, i < n, g(i))
        le = (f(i) <= M) if kind == "MAX" else (f(i) >= M)
        lt = (f(i) < M) if kind == "MAX" else (f(i) > M)
        return [
            z3.ForAll([i], z3.Implies(rng, z3.And(0 <= a, a < n, g(a), f(a) == M, le))),
            z3.ForAll([i], z3.Implies(z3.And(rng, i < a), lt)),
            # witness also for index 0 when it is in range (frequent ground case)
            z3.Implies(z3.And(n > 0, g(z3.IntVal(0))), z3.And(0 <= a, a < n, g(a), f(a) == M)),
        ]

    return ax


def EXT(kind, f, n, guard=None):
    """(value, index) of the first extreme element among i in range(n) with guard"""
    k = ctx.new_generic("b")
    ctx.generics.append(k)
    try:
        e = arith(R(f(k)))
        g = B(guard(k)) if guard else z3.BoolVal(True)
    finally:
        ctx.generics.pop()
    s, gens = intern(kind, [I(n), canon(k, e), canon(k, g)], [((), Real), ((), Int)], _ext_ax(kind), cls=ExtSym)
    return s.at(gens, 0), s.at(gens, 1)


# ---------------------------------------------------------------- clearing positive denominators


def _recips(p):
    return {a for m in p for a in m if z3.is_app(_atoms[a]) and _atoms[a].decl().kind() == z3.Z3_OP_DIV and num_const(_atoms[a].arg(0)) == 1}


def count_of(n):
    """the number of terms of a sum over 0..n-1"""
    if num_const(n) is not None:
        return n
    return I(n) if positive(I(n)) else z3.If(I(n) > 0, I(n), z3.IntVal(0))


positive = known_positive


def clear(p):
    """multiply a polynomial by denominators known to be positive; (polynomial, list of denominators used)"""
    used = []
    for _ in range(6):
        for r in sorted(_recips(p)):
            x = _atoms[r].arg(1)
            if not positive(x):
                continue
            d = max(m.count(r) for m in p)
            px = _poly(x)
            out = {}
            for m, c in p.items():
                n = m.count(r)
                t = {tuple(a for a in m if a != r): c}
                for _ in range(d - n):
                    t = _pmul(t, px)
                out = _padd(out, t)
            p = out
            used.append((x, d))
            break
        else:
            return p, used
    return p, used


def order0(op, a, b):
    """a op b on reals, with positive denominators cleared"""
    if not (has_div(a) or has_div(b)):
        return None
    p, used = clear(poly(a - b))
    if not used:
        return None
    for a in sorted(set.intersection(*[set(m) for m in p]) if p else ()):
        n = min(m.count(a) for m in p)
        if positive(_atoms[a]):
            out = {}
            for m, c in p.items():
                m = list(m)
                for _ in range(n):
                    m.remove(a)
                out[tuple(m)] = c
            p = out
    e = from_poly(p)
    return {"<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0}[op]


def has_div(e):
    return any(d == "/" for d in decls_any(e))


def decls_any(e):
    out, work, seen = set(), [e], set()
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            out.add(x.decl().name())
            work.extend(x.children())
        elif z3.is_quantifier(x):
            work.append(x.body())
    return out


def extval(kind, f, n):
    """the extreme value; a running sum of non negative terms has its extremes at the ends"""
    r = _monotone_ext(kind, f, n)
    return r if r is not None else EXT(kind, f, n)[0]


def _monotone_ext(kind, f, n):
    k, e = body_at(lambda i: R(f(i)))
    p = poly(e)
    sums, coef = {}, {}
    for m, c in p.items():
        dep = [a for a in m if mentions(_atoms[a], [k])]
        if not dep:
            continue
        if len(dep) != 1:
            return None
        a = dep[0]
        t = _atoms[a]
        s = ctx.symbols.get(t.decl().name()) if z3.is_app(t) and t.num_args() else None
        if s is None or s.kind != "SUM":
            return None
        sums[a] = (s, t)
        coef = _padd(coef, {tuple(x for x in m if x != a): c})
    if len(sums) != 1:
        return None
    s, t = next(iter(sums.values()))
    arg = t.arg(t.num_args() - 1)
    if any(mentions(t.arg(i), [k]) for i in range(t.num_args() - 1)):
        return None
    step = z3.simplify(subst(arg, (k, k + 1)) - arg)
    st = num_const(step)
    if st not in (1, -1):
        return None
    nt = I(n)
    if not ctx.entails(nt > 0, 500):
        return None
    first, last = z3.simplify(subst(arg, (k, z3.IntVal(0)))), z3.simplify(subst(arg, (k, nt - 1)))
    lo, hi = (first, last) if st == 1 else (last, first)
    params = [t.arg(i) for i in range(t.num_args() - 1)]
    body = lambda i: subst(s.bodies[0], *zip(s.params, params), (P0, i))
    u = z3.Int("mono!t")
    if not ctx.entails(And(lo >= 0, z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < hi), body(u) >= 0))), 2000):
        return None
    c = from_poly(coef)
    pos = num_const(c)
    sign = (1 if pos >= 0 else -1) if pos is not None else 1 if positive_product(coef) else -1 if positive_product(_padd({}, coef, -1)) else 0
    if sign == 0:
        return None
    up = sign * st > 0
    at = (nt - 1) if (kind == "MAX") == up else z3.IntVal(0)
    at = z3.simplify(at)
    old = subst(t, (k, at))
    new = t.decl()(*[subst(x, (k, at)) for x in params], z3.simplify(subst(arg, (k, at))))
    return arith(subst(subst(e, (k, at)), (old, new)))


def positive_product(p):
    """a single monomial whose factors are known to be positive (denominators included), with positive coefficient"""
    if len(p) != 1:
        return ctx.entails(from_poly(p) >= 0, 1000)
    (m, c), = p.items()
    if c < 0:
        return False
    for a in m:
        t = _atoms[a]
        if a in _recips({(a,): 1}):
            t = t.arg(1)
        if not positive(t):
            return False
    return True


def _first_ax(s, params):
    n = s.bodies[0]
    g = lambda i: subst(s.bodies[1], (P0, i))
    a = s.at(params)
    i = z3.Int("xi")
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), z3.And(0 <= a, a <= i, g(a)))),
            z3.Implies(z3.And(n > 0, g(z3.IntVal(0))), a == 0)]


def _last_ax(s, params):
    n = s.bodies[0]
    g = lambda i: subst(s.bodies[1], (P0, i))
    a = s.at(params)
    i = z3.Int("xi")
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), z3.And(i <= a, a < n, g(a))))]


def FIRST(guard, n, kind="FIRST"):
    k = ctx.new_generic("b")
    ctx.generics.append(k)
    try:
        g = B(guard(k))
    finally:
        ctx.generics.pop()
    s, gens = intern(kind, [I(n), canon(k, g)], [((), Int)], _first_ax if kind == "FIRST" else _last_ax, cls=ExtSym)
    return s.at(gens)


def LAST(guard, n):
    return FIRST(guard, n, "LAST")


def EXISTS(guard, n, lo=0):
    c, l = num_const(n), num_const(lo)
    if c is not None and l is not None and c - l <= 6:
        return Or(*[B(guard(i)) for i in range(int(l), int(c))])
    k = ctx.new_generic("q")
    ctx.generics.append(k)
    try:
        g = B(guard(k))
    finally:
        ctx.generics.pop()
    if z3.is_false(z3.simplify(g)):
        return z3.BoolVal(False)
    if not mentions(g, [k]):
        return And(I(lo) < I(n), g)
    return z3.Exists([k], z3.And(I(lo) <= k, k < I(n), g))


def FORALL(guard, n, lo=0):
    c, l = num_const(n), num_const(lo)
    if c is not None and l is not None and c - l <= 6:
        return And(*[B(guard(i)) for i in range(int(l), int(c))])
    k = ctx.new_generic("q")
    ctx.generics.append(k)
    try:
        g = B(guard(k))
    finally:
        ctx.generics.pop()
    if z3.is_true(z3.simplify(g)):
        return z3.BoolVal(True)
    if not mentions(g, [k]):
        return Or(I(lo) >= I(n), g)
    return z3.ForAll([k], z3.Implies(z3.And(I(lo) <= k, k < I(n)), g))


def _nz_ax(s, params):
    n = s.bodies[0]
    g = lambda i: subst(s.bodies[1], (P0, i))
    cnt, nz, rk = s.at(params, 0), s.at(params, 1), s.at(params, 2)
    i, j = z3.Int("xi"), z3.Int("xj")
    out = [
        cnt >= 0, z3.Or(cnt <= n, n < 0),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), z3.And(0 <= nz(j), nz(j) < n, g(nz(j)), rk(nz(j)) == j)),
                  patterns=[nz(j)]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), nz(i) < nz(j)),
                  patterns=[z3.MultiPattern(nz(i), nz(j))]),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), z3.And(0 <= rk(i), rk(i) < cnt, nz(rk(i)) == i)),
                  patterns=[rk(i)]),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), cnt > 0)),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), z3.And(0 <= rk(i), rk(i) < cnt, nz(rk(i)) == i))),
    ]
    return out


def NZ(guard, n):
    """(count, position closure, rank closure) of the indices where guard holds, in order"""
    k = ctx.new_generic("b")
    ctx.generics.append(k)
    try:
        g = z3.simplify(B(guard(k)))
    finally:
        ctx.generics.pop()
    if z3.is_true(g):
        m = I(n)
        return z3.If(m > 0, m, z3.IntVal(0)), (lambda j: I(j)), (lambda i: I(i))
    s, gens = intern("NZ", [I(n), canon(k, g)], [((), Int), ((Int,), Int), ((Int,), Int)], _nz_ax, cls=ExtSym)
    return s.at(gens, 0), s.at(gens, 1), s.at(gens, 2)


def _perm_ax(s, params):
    n = s.bodies[0]
    f = lambda i: subst(s.bodies[1], (P0, i))
    p, q = s.at(params, 0), s.at(params, 1)
    i, j = z3.Int("xi"), z3.Int("xj")
    return [
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= p(j), p(j) < n, q(p(j)) == j)), patterns=[p(j)]),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(p(i)) <= f(p(j))), patterns=[z3.MultiPattern(p(i), p(j))]),
    ]


def SORTPERM(f, n):
    """(perm, inverse): f(perm(0)) <= f(perm(1)) <= ..."""
    k, e = body_at(lambda i: arith(R(f(i))))
    s, gens = intern("PERM", [I(n), canon(k, e)], [((Int,), Int), ((Int,), Int)], _perm_ax, cls=ExtSym)
    return s.at(gens, 0), s.at(gens, 1)


# ---------------------------------------------------------------- elementary functions


def _elem(name, ax):
    def mk(x):
        x = arith(R(x))
        f = z3.Function(name, Real, Real)
        if name not in ctx.symbols:
            ctx.symbols[name] = Symbol(name, name, (), [], [], [((Real,), Real)], None)
            t, u = z3.Real("et"), z3.Real("eu")
            ctx.symbols[name]._ax = ax(f, t, u)
        return f(x)

    return mk


SQRT = _elem("sqrt", lambda f, t, u: [
    z3.ForAll([t], z3.Implies(t >= 0, z3.And(f(t) >= 0, f(t) * f(t) == t)), patterns=[f(t)]),
    z3.ForAll([t], z3.Implies(t > 0, f(t) > 0), patterns=[f(t)])])
LOG = _elem("ln", lambda f, t, u: [
    z3.ForAll([t, u], z3.Implies(z3.And(0 < t, t < u), f(t) < f(u)), patterns=[z3.MultiPattern(f(t), f(u))])])
EXP = _elem("exp", lambda f, t, u: [
    z3.ForAll([t], f(t) > 0, patterns=[f(t)]),
    z3.ForAll([t], z3.Implies(t <= 0, f(t) <= 1), patterns=[f(t)]),
    z3.ForAll([t], z3.Implies(t == 0, f(t) == 1), patterns=[f(t)]),
    z3.ForAll([t, u], z3.Implies(t < u, f(t) < f(u)), patterns=[z3.MultiPattern(f(t), f(u))])])


def POW(b, e):
    c = num_const(e)
    if c is not None and c.denominator == 1 and 0 <= c <= 4:
        out = z3.RealVal(1)
        for _ in range(int(c)):
            out = out * R(b)
        return arith(out)
    if c is not None and c.denominator == 1 and -4 <= c < 0:
        return z3.RealVal(1) / POW(b, -c)
    if c is not None and 2 * c == 1:
        return SQRT(b)
    bc = num_const(b)
    if bc == 10 and is_z3(e):
        return POW10(e)
    f = z3.Function("pow", Real, Real, Real)
    if "pow" not in ctx.symbols:
        ctx.symbols["pow"] = Symbol("pow", "pow", (), [], [], [((Real, Real), Real)], None)
        t, u, v = z3.Real("et"), z3.Real("eu"), z3.Real("ev")
        ctx.symbols["pow"]._ax = [
            z3.ForAll([t], f(t, 1) == t, patterns=[f(t, 1)]),
            z3.ForAll([t, u], z3.Implies(u == 1, f(t, u) == t), patterns=[f(t, u)]),
            z3.ForAll([t, u], z3.Implies(t > 0, f(t, u) > 0), patterns=[f(t, u)]),
            z3.ForAll([t, u], z3.Implies(z3.And(t == 0, u > 0), f(t, u) == 0), patterns=[f(t, u)]),
        ]
    return f(arith(R(b)), arith(R(e)))


def POW10(e):
    """10**e for an integer valued exponent term"""
    if z3.is_app(e) and e.sort() == Real:
        p = z3.simplify(z3.ToInt(e))
        e = p
    f = z3.Function("pow10", Int, Real)
    if "pow10" not in ctx.symbols:
        ctx.symbols["pow10"] = Symbol("pow10", "pow10", (), [], [], [((Int,), Real)], None)
        t, u = z3.Int("pt"), z3.Int("pu")
        ctx.symbols["pow10"]._ax = [
            z3.ForAll([t], f(t) > 0, patterns=[f(t)]),
            z3.ForAll([t, u], z3.Implies(t <= u, f(t) <= f(u)), patterns=[z3.MultiPattern(f(t), f(u))]),
            z3.ForAll([t, u], z3.Implies(u == t + 1, f(u) == 10 * f(t)), patterns=[z3.MultiPattern(f(t), f(u))]),
            z3.ForAll([t, u], z3.Implies(t + u == 0, f(t) * f(u) == 1), patterns=[z3.MultiPattern(f(t), f(u))]),
            *[f(z3.IntVal(i)) == (rat(10 ** i) if i >= 0 else z3.RealVal(f"1/{10 ** -i}")) for i in range(-4, 5)],
        ]
    return f(I(e))


# ---------------------------------------------------------------- ground instances of index axioms


def index_terms(fs, limit=14):
    """ground Int terms used as arguments of uninterpreted functions, goal side first"""
    out, seen, work = [], set(), list(reversed(fs))
    ids = set()
    while work and len(out) < limit:
        e = work.pop(0)
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.sort() == Int and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.get_id() not in ids and not has_var(e):
                ids.add(e.get_id())
                out.append(e)
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in e.children():
                    if a.sort() == Int and a.get_id() not in ids and not has_var(a):
                        ids.add(a.get_id())
                        out.append(a)
            work = list(e.children()) + work
    return out


def has_var(e):
    work = [e]
    while work:
        x = work.pop()
        if z3.is_var(x):
            return True
        if z3.is_app(x):
            work.extend(x.children())
    return False


def ground_apps(fs, names, limit=40):
    """ground applications of the named functions: {name: [args, ...]}"""
    out, seen, n = {}, set(), 0
    work = list(reversed(fs))
    while work and n < limit:
        e = work.pop(0)
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().name() in names and not has_var(e):
                l = out.setdefault(e.decl().name(), [])
                l.append(e.children())
                n += 1
            work = list(e.children()) + work
    return out


def solve_index(arg, var, t):
    """u with arg[var := u] == t, for arg linear in var with coefficient 1 or -1"""
    a0 = z3.simplify(subst(arg, (var, z3.IntVal(0))))
    a1 = z3.simplify(subst(arg, (var, z3.IntVal(1))) - a0)
    a2 = z3.simplify(subst(arg, (var, z3.IntVal(2))) - a0)
    if not (z3.is_int_value(a1) and z3.is_int_value(a2)) or a1.as_long() not in (1, -1) or a2.as_long() != 2 * a1.as_long():
        return None
    if a1.as_long() == 1:
        return z3.simplify(t - a0)
    return z3.simplify(a0 - t)


def matches(body, var, fs):
    """values of var at which the applications in body coincide with ground applications of the problem"""
    pats, seen, work = [], set(), [body]
    while work:
        e = work.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.sort() == Int and mentions(c, [var]) for c in e.children()):
                pats.append(e)
            work.extend(e.children())
    if not pats:
        return []
    apps = ground_apps(fs, {p.decl().name() for p in pats})
    out, ids = [], set()
    for p in pats:
        for args in apps.get(p.decl().name(), []):
            for c, t in zip(p.children(), args):
                if c.sort() == Int and mentions(c, [var]):
                    u = solve_index(c, var, t)
                    if u is not None and u.get_id() not in ids:
                        ids.add(u.get_id())
                        out.append(u)
                    break
    return out


def instances(fs, cap=160):
    """ground instances of the minimality/extremality axioms of the index symbols at the index terms of the problem (and their neighbours)"""
    from .core import decls_in

    names, seen = set(), set()
    for f in fs:
        names |= set(decls_in(f, seen))
    syms = []
    for n in sorted(names):
        s = ctx.symbols.get(n)
        if s is not None and s not in syms and not s.params and s.kind in ("NZ", "FIRST", "LAST", "MAX", "MIN"):
            syms.append(s)
    if not syms:
        return []
    out, seen = [], set()
    terms = [(z3.simplify(t + d) if d else t, syms) for t in index_terms(fs) for d in (0, 1, -1)]
    for s in syms:
        for b in s.bodies[1:]:
            if is_z3(b):
                terms = [(u, [s]) for u in matches(b, P0, fs)] + terms
    for u, ss in terms:
        if True:
            for s in ss:
                if (u.get_id(), s.name) in seen:
                    continue
                seen.add((u.get_id(), s.name))
                n = s.bodies[0]
                sub_ = lambda e: subst(e, (P0, u))
                rng = z3.And(0 <= u, u < n)
                if s.kind == "NZ":
                    g = sub_(s.bodies[1])
                    cnt, nz, rk = s.at([], 0), s.at([], 1), s.at([], 2)
                    out.append(z3.Implies(z3.And(rng, g), z3.And(cnt > 0, 0 <= rk(u), rk(u) < cnt, nz(rk(u)) == u, nz(z3.IntVal(0)) <= u, u <= nz(cnt - 1))))
                elif s.kind == "FIRST":
                    g = sub_(s.bodies[1])
                    a = s.at([])
                    out.append(z3.Implies(z3.And(rng, g), z3.And(0 <= a, a <= u)))
                elif s.kind == "LAST":
                    g = sub_(s.bodies[1])
                    a = s.at([])
                    out.append(z3.Implies(z3.And(rng, g), z3.And(u <= a, a < n)))
                else:
                    g = sub_(s.bodies[2])
                    f, m = sub_(s.bodies[1]), s.at([], 0)
                    out.append(z3.Implies(z3.And(rng, g), f <= m if s.kind == "MAX" else f >= m))
                if len(out) >= cap:
                    return out
    return out
