"""Core of pyvc: terms, path exploration, values, interning of reductions.

pyvc generates verification conditions from the *real* Python source by symbolic
execution of its AST.  Floats are mathematical reals, arrays are (shape, closure)
pairs, reductions are interned function symbols with defining axioms.
"""
from __future__ import annotations

import itertools
import os
import time
from fractions import Fraction

import hashlib

import z3

z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1")) % 1000)

Real, Int, Bool = z3.RealSort(), z3.IntSort(), z3.BoolSort()
Str = z3.DeclareSort("Str")
Ref = z3.DeclareSort("Ref")


class Unsupported(Exception):
    """The engine cannot bring this construct within reach (never a verdict)."""


class Budget(Unsupported):
    pass


class Infeasible(Exception):
    """The current path contradicts its own path condition."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, kind, msg=None):
        super().__init__(kind)
        self.kind, self.msg = kind, msg


class StopGen(Exception):
    pass


# ------------------------------------------------------------------ helpers on terms


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and x.sort() == Bool)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and x.sort() == Int)


def is_real(x):
    return is_z3(x) and x.sort() == Real


def is_num(x):
    return is_int(x) or is_real(x) or isinstance(x, float)


def is_strv(x):
    return isinstance(x, (str, Rope)) or (is_z3(x) and x.sort() == Str)


def rat(f):
    if isinstance(f, float):
        if f in (float("inf"), float("-inf")) or f != f:
            raise Unsupported("non finite constant")
        return z3.RealVal(str(Fraction(repr(f))))
    if isinstance(f, Fraction):
        return z3.RealVal(str(f))
    return z3.RealVal(f)


def R(x):
    """to Real term"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, float, Fraction)):
        return rat(x)
    if is_z3(x):
        if x.sort() == Real:
            return x
        if x.sort() == Int:
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            return z3.ToReal(x)
        if x.sort() == Bool:
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"not a real: {x!r}")


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z3(x):
        if x.sort() == Int:
            return x
        if x.sort() == Bool:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an int: {x!r}")


def B(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_z3(x) and x.sort() == Bool:
        return x
    raise Unsupported(f"not a bool term: {x!r}")


def num_const(x):
    """Fraction if x is a numeric constant, else None"""
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        try:
            return Fraction(repr(x))
        except ValueError:
            return None
    if is_z3(x):
        if z3.is_int_value(x):
            return Fraction(x.as_long())
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        y = None
        if x.sort() in (Int, Real) and x.num_args() > 0 and not _has_uninterp(x):
            y = z3.simplify(x)
            if z3.is_int_value(y) or z3.is_rational_value(y):
                return num_const(y)
    return None


def _has_uninterp(e):
    stack = [e]
    seen = set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        if len(seen) > 60:
            return True
        stack.extend(t.children())
    return False


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return z3.BoolVal(False)
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return z3.BoolVal(True)
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    a, b = B(a), B(b)
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    if z3.is_true(a):
        return b
    return z3.Implies(a, b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def conc_bool(c):
    """True/False/None"""
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return None


# ------------------------------------------------------------------ context


class Frame:
    def __init__(self, trail):
        self.trail = list(trail)
        self.pos = 0
        self.alts = []


class Outcome:
    def __init__(self, conds, facts, kind, value, state):
        self.conds, self.facts, self.kind, self.value, self.state = conds, facts, kind, value, state


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.counter = itertools.count()
        self.pc = []  # list of ("c"|"f", formula)
        self.frames = []
        self.generics = []  # current stack of generic Int constants
        self.all_generics = {}  # id -> const
        self.cells = []
        self.symbols = {}  # decl name -> Symbol
        self.intern_tab = {}
        self.strlits = {}
        self.keep = []
        self.obligations = []
        self.trusted = set()
        self.notes = set()
        self.tainted = set()
        self.feas_cache = {}
        self.pos_cache = {}
        self.deadline = None
        self.npaths = 0
        self.solver_time = 0.0
        self.feas_timeout = 150
        self.spec = 0
        self.goal = False
        self.funcs = set()
        self.last_break_site = None
        self.used_contracts = set()

    # -- fresh symbols
    def fresh(self, name, sort):
        nm = f"{name}!{next(self.counter)}"
        if self.generics:
            f = z3.Function(nm, *[g.sort() for g in self.generics], sort)
            return f(*self.generics)
        return z3.Const(nm, sort)

    def freshfn(self, name, nargs, sort, argsort=Int):
        """fresh function of nargs extra arguments (plus the generic stack)"""
        nm = f"{name}!{next(self.counter)}"
        g = list(self.generics)
        f = z3.Function(nm, *[x.sort() for x in g], *([argsort] * nargs), sort)
        return lambda *a: f(*g, *a)

    def new_generic(self, name="k"):
        c = z3.Int(f"{name}${next(self.counter)}")
        self.all_generics[c.get_id()] = c
        return c

    # -- facts
    def assume(self, f, kind="f"):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append((kind, f))

    def pcf(self):
        return [f for _, f in self.pc]

    # -- decisions
    def decide(self, cond, why=""):
        c = conc_bool(cond)
        if c is not None:
            return c
        cond = z3.simplify(cond)
        c = conc_bool(cond)
        if c is not None:
            return c
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget for symbolic execution exhausted")
        # syntactically known?
        cid = cond.get_id()
        ncond = z3.simplify(z3.Not(cond))
        nid = ncond.get_id()
        for _, f in self.pc:
            i = f.get_id()
            if i == cid:
                return True
            if i == nid:
                return False
        if not self.frames:
            raise Unsupported("decision outside exploration")
        fr = self.frames[-1]
        if fr.pos < len(fr.trail):
            v = fr.trail[fr.pos]
        else:
            tf, ff = self.feasible(cond), self.feasible(ncond)
            if not tf and not ff:
                raise Infeasible()
            if tf and not ff:
                v = (True, False)
            elif ff and not tf:
                v = (False, False)
            else:
                v = (True, True)
                fr.alts.append(fr.trail[: fr.pos] + [(False, True)])
            fr.trail.append(v)
        fr.pos += 1
        val, branching = v
        # an implied condition is recorded as a fact, a real choice as a condition
        self.pc.append(("c" if branching else "f", cond if val else ncond))
        return val

    def feasible(self, cond):
        """False only if pc |- not cond"""
        key = (tuple(f.get_id() for _, f in self.pc), cond.get_id())
        if key in self.feas_cache:
            return self.feas_cache[key]
        t0 = time.time()
        s = z3.Solver()
        s.set("rlimit", 60_000)  # a count of solver steps: the same answer on every machine
        s.set("timeout", 8 * self.feas_timeout)
        fs = self.pcf() + [cond]
        for f in fs:
            s.add(f)
        for a in self.axioms_for(fs):
            s.add(a)
        r = s.check() != z3.unsat
        self.solver_time += time.time() - t0
        self.feas_cache[key] = r
        self.keep.append(cond)
        self.keep.extend(f for _, f in self.pc)
        return r

    def entails(self, f, timeout=2000, extra=()):
        """True iff pc |- f is proved"""
        f = B(f)
        if z3.is_true(z3.simplify(f)):
            return True
        t0 = time.time()
        s = z3.Solver()
        s.set("rlimit", 700 * timeout)
        s.set("timeout", 8 * timeout)
        fs = self.pcf() + list(extra) + [z3.Not(f)]
        for g in fs:
            s.add(g)
        for a in self.axioms_for(fs):
            s.add(a)
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t0
        return r

    # -- axioms of interned symbols reachable from formulas
    def axioms_for(self, fs):
        out, seen, done = [], set(), set()
        work = list(fs)
        while work:
            e = work.pop()
            for d in decls_in(e, seen):
                s = self.symbols.get(d)
                if s is not None and d not in done:
                    done.add(d)
                    axs = s.axioms()
                    out.extend(axs)
                    work.extend(axs)
        out.extend(self.pair_lemmas(done))
        return out

    def pair_lemmas(self, names):
        """congruence between interned symbols of the same kind with equal-by-theory bodies"""
        out = []
        groups = {}
        for n in sorted(names):
            s = self.symbols[n]
            groups.setdefault((s.kind, s.sig), []).append(s)
        for g in groups.values():
            if len(g) < 2 or len(g) > 6:
                continue
            for a, b in itertools.combinations(g, 2):
                k = (a.name, b.name)
                if k not in self.intern_tab:
                    self.intern_tab[k] = a.congruence(b)
                out.extend(self.intern_tab[k])
        return out

    # -- cells
    def snapshot(self):
        return len(self.cells), [(c, c.c) for c in self.cells]

    def restore(self, snap):
        n, l = snap
        del self.cells[n:]
        for c, v in l:
            c.c = v

    # -- exploration
    def explore(self, thunk, assume=(), max_paths=4000):
        """run thunk on every feasible path; the heap is restored before each one"""
        snap = self.snapshot()
        base = len(self.pc)
        stack = [[]]
        outs = []
        while stack:
            trail = stack.pop()
            self.restore(snap)
            del self.pc[base:]
            fr = Frame(trail)
            self.frames.append(fr)
            self.npaths += 1
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget for symbolic execution exhausted")
            try:
                try:
                    for a in assume:
                        self.assume(a)
                    mark = len(self.pc)
                    v = thunk()
                    kind = "ok"
                except PyRaise as e:
                    v, kind = e, "raise"
                except Infeasible:
                    stack.extend(fr.alts)
                    continue
                suffix = self.pc[mark:]
                conds = [f for k, f in suffix if k == "c"]
                facts = [f for k, f in suffix if k == "f"]
                state = [(c, c.c) for c in self.cells[: snap[0]]]
                newcells = self.cells[snap[0]:]
                o = Outcome(conds, facts, kind, v, state)
                o.newcells = [(c, c.c) for c in newcells]
                outs.append(o)
                stack.extend(fr.alts)
                if len(outs) > max_paths:
                    raise Budget("too many paths")
            finally:
                self.frames.pop()
                del self.pc[base:]
        self.restore(snap)
        return outs


ctx = Ctx()


def decls_in(e, seen):
    """names of uninterpreted declarations in e (skipping already seen asts)"""
    out = []
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t.decl().name())
            stack.extend(t.children())
    return out


def consts_in(e, pred, seen=None):
    """constants satisfying pred, in order of first occurrence (depth first)"""
    out, seen = [], set() if seen is None else seen

    def go(t):
        i = t.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_quantifier(t):
            go(t.body())
            return
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if pred(t):
                    out.append(t)
            for c in t.children():
                go(c)

    go(e)
    return out


def generics_in(e):
    return consts_in(e, lambda t: t.get_id() in ctx.all_generics)


def mentions(e, consts):
    ids = {c.get_id() for c in consts}
    return bool(consts_in(e, lambda t: t.get_id() in ids))


def occurs(e, names):
    """does any declaration named in names occur in e"""
    return any(d in names for d in decls_in(e, set()))


def subst(e, *pairs):
    return z3.substitute(e, *pairs)


# ------------------------------------------------------------------ interned symbols


_ph = {}


def ph(sort, i):
    k = (str(sort), i)
    if k not in _ph:
        _ph[k] = z3.Const(f"@{sort}{i}", sort)
    return _ph[k]


class Symbol:
    """An interned function symbol standing for an operator applied to a body."""

    def __init__(self, name, kind, sig, bodies, params, sorts, axgen):
        self.name, self.kind, self.sig = name, kind, sig
        self.bodies, self.params, self.sorts, self.axgen = bodies, params, sorts, axgen
        self._ax = None

    def decl(self, j=0):
        asorts, rsort = self.sorts[j]
        return z3.Function(f"{self.name}" if j == 0 else f"{self.name}.{j}", *[p.sort() for p in self.params], *asorts, rsort)

    def at(self, params, j=0):
        d = self.decl(j)
        nargs = len(self.sorts[j][0])
        if nargs == 0:
            return d(*params) if params else z3.Const(d.name(), d.range())
        return lambda *a: d(*params, *a)

    def axioms(self):
        if self._ax is None:
            self._ax = []
            if self.axgen is not None:
                fs = self.axgen(self, self.params)
                if self.params:
                    trig = [self.at(self.params, j) for j in range(len(self.sorts)) if not self.sorts[j][0]]
                    for f in fs:
                        try:
                            if trig:
                                self._ax.append(z3.ForAll(self.params, f, patterns=trig))
                            else:
                                self._ax.append(z3.ForAll(self.params, f))
                        except z3.Z3Exception:
                            self._ax.append(z3.ForAll(self.params, f))
                else:
                    self._ax = list(fs)
        return self._ax

    def congruence(self, other):
        return []


def free_subterms(bodies):
    """maximal non-boolean subterms that depend on generics and on no placeholder or bound variable, in order of occurrence"""
    phs = {t.get_id() for t in _ph.values()}
    info = {}

    def scan(t):
        """(depends on a generic, depends on a placeholder, contains a bound variable)"""
        i = t.get_id()
        r = info.get(i)
        if r is not None:
            return r
        if z3.is_var(t):
            r = (False, False, True)
        elif z3.is_quantifier(t):
            g, p, _ = scan(t.body())
            r = (g, p, False)
        else:
            g = i in ctx.all_generics
            p = i in phs
            v = False
            for c in t.children():
                a, b, d = scan(c)
                g, p, v = g or a, p or b, v or d
            r = (g, p, v)
        info[i] = r
        return r

    out, seen = [], set()

    def go(t):
        i = t.get_id()
        if i in seen:
            return
        seen.add(i)
        g, p, v = scan(t)
        if not g:
            return
        if z3.is_quantifier(t):
            go(t.body())
            return
        if not p and not v and t.sort() != z3.BoolSort():
            out.append(t)
            return
        for c in t.children():
            go(c)

    for b in bodies:
        go(b)
    # a listed term may also occur inside a later, larger one: substitute the larger ones first is unnecessary, z3 replaces top down
    return out


COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT}


class Canon:
    """canonical argument order of commutative operators (by structure, not by z3's internal identifiers)"""

    full_memo = {}

    def __init__(self, leaves):
        self.leaves, self.memo, self.new = leaves, {}, {}

    @classmethod
    def full(cls, t):
        """structural key with the generics masked"""
        i = t.get_id()
        r = cls.full_memo.get(i)
        if r is not None and r[0].eq(t):
            return r[1]
        if z3.is_quantifier(t):
            k = dig("Q" + str(t.num_vars()) + cls.full(t.body()))
        elif z3.is_var(t):
            k = f"v{z3.get_var_index(t)}"
        elif i in ctx.all_generics:
            k = "@g" + t.sort().name()
        elif t.num_args() == 0:
            k = str(t) if t.decl().kind() != z3.Z3_OP_UNINTERPRETED else t.decl().name()
        else:
            ks = [cls.full(c) for c in t.children()]
            if t.decl().kind() in COMM:
                ks.sort()
            k = dig(t.decl().name() + "(" + ",".join(ks) + ")")
        cls.full_memo[i] = (t, k)
        return k

    def key(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        if i in self.leaves:
            k = "@l" + t.sort().name()
        elif z3.is_quantifier(t) or z3.is_var(t) or t.num_args() == 0:
            k = self.full(t)
        else:
            ks = [self.key(c) for c in t.children()]
            if t.decl().kind() in COMM:
                ks.sort()
            k = dig(t.decl().name() + "(" + ",".join(ks) + ")")
        self.memo[i] = k
        return k

    def rebuild(self, t):
        i = t.get_id()
        if i in self.new:
            return self.new[i]
        if i in self.leaves or z3.is_quantifier(t) or z3.is_var(t) or t.num_args() == 0:
            r = t
        else:
            ch = t.children()
            if t.decl().kind() in COMM:
                ch = sorted(ch, key=lambda c: (self.key(c), self.full(c)))
            ch = [self.rebuild(c) for c in ch]
            r = t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else nary(t, ch)
        self.new[i] = r
        return r


def nary(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return z3.Product(*ch)


def dig(s):
    return hashlib.blake2b(s.encode(), digest_size=9).hexdigest()


def intern(kind, bodies, sorts, axgen, sig=(), cls=None):
    """bodies: z3 terms over placeholders ph(...); returns (symbol, actual params)"""
    bodies = [z3.simplify(b, som=False) for b in bodies]
    leaves = {t.get_id() for t in free_subterms(bodies)}
    ca = Canon(leaves)
    bodies = [ca.rebuild(b) for b in bodies]
    gens = free_subterms(bodies)
    params = [z3.Const(f"@p{i}", g.sort()) for i, g in enumerate(gens)]
    ab = [subst(b, *zip(gens, params)) for b in bodies] if gens else bodies
    key = (kind, sig, tuple(b.get_id() for b in ab), tuple(p.sort().name() for p in params))
    s = ctx.intern_tab.get(key)
    if s is None:
        name = f"{kind}#{next(ctx.counter)}"
        s = (cls or Symbol)(name, kind, sig, ab, params, sorts, axgen)
        ctx.intern_tab[key] = s
        ctx.keep.extend(ab)
        for j in range(len(sorts)):
            ctx.symbols[s.decl(j).name()] = s
    return s, gens


# ------------------------------------------------------------------ polynomial normal form


def poly(e, depth=0):
    """dict: tuple(sorted atom ids) -> Fraction ; atoms table in ctx.keep"""
    e = R(e) if not is_z3(e) or e.sort() != Real else e
    return _poly(e)


_atoms = {}


def _atom(e):
    _atoms[e.get_id()] = e
    return {(e.get_id(),): Fraction(1)}


def _padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        c = out.get(m, 0) + k * c
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def _pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            m = _cancel(m)
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                out.pop(m, None)
    return out


def _cancel(m):
    """x * (1/x) = 1 where x is known to be positive on the path"""
    if len(m) < 2:
        return m
    for r in set(m):
        e = _atoms[r]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and num_const(e.arg(0)) == 1 and e.arg(1).get_id() in m and known_positive(e.arg(1)):
            x = e.arg(1).get_id()
            n = min(m.count(r), m.count(x))
            m = list(m)
            for _ in range(n):
                m.remove(r)
                m.remove(x)
            return _cancel(tuple(m))
    return m


def known_positive(x):
    """x > 0 follows from the path; x does not depend on a bound variable"""
    if ctx.generics and mentions(x, ctx.generics):
        return False
    key = tuple(f.get_id() for f in ctx.pcf())
    seen = ctx.pos_cache.setdefault(x.get_id(), [x])
    for k, r in seen[1:]:
        if (r and key[:len(k)] == k) or (not r and k == key):
            return r
    r = ctx.entails(x > 0, 1000)
    seen.append((key, r))
    return r


def _is_recip(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and num_const(e.arg(0)) == 1


def _recip(p):
    """1 / p, with the common factors known to be positive pulled out of the denominator"""
    out = {(): Fraction(1)}
    if p:
        common = list(min(p, key=len))
        for a in sorted(set(common)):
            n = min(m.count(a) for m in p)
            if not n:
                continue
            e = _atoms[a]
            x = e.arg(1) if _is_recip(e) else e
            if not known_positive(x):
                continue
            q = {}
            for m, c in p.items():
                m = list(m)
                for _ in range(n):
                    m.remove(a)
                q[tuple(m)] = q.get(tuple(m), 0) + c
            p = q
            inv = _poly(x) if _is_recip(e) else _atom(z3.RealVal(1) / e)
            for _ in range(n):
                out = _pmul(out, inv)
        if len(p) == 1 and () in p:
            return _pmul(out, {(): 1 / p[()]})
        lead = p[min(p)]
        if lead != 1:
            p = {m: c / lead for m, c in p.items()}
            out = _pmul(out, {(): 1 / lead})
    return _pmul(out, _atom(z3.RealVal(1) / from_poly(p)))


def _poly(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = num_const(e)
        return {(): f} if f else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        out = {}
        for c in e.children():
            out = _padd(out, _poly(c))
        return out
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        out = _poly(ch[0])
        for c in ch[1:]:
            out = _padd(out, _poly(c), -1)
        return out
    if k == z3.Z3_OP_UMINUS:
        return _padd({}, _poly(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for c in e.children():
            out = _pmul(out, _poly(c))
        return out
    if k == z3.Z3_OP_DIV:
        a, b = e.arg(0), e.arg(1)
        f = num_const(b)
        if f:
            return _pmul(_poly(a), {(): 1 / f})
        pb = _poly(b)
        out = _recip(pb)
        return _pmul(_poly(a), out)
    if k == z3.Z3_OP_POWER:
        f = num_const(e.arg(1))
        if f is not None and f.denominator == 1 and 0 <= f <= 6:
            out = {(): Fraction(1)}
            p = _poly(e.arg(0))
            for _ in range(int(f)):
                out = _pmul(out, p)
            return out
    if k == z3.Z3_OP_TO_REAL:
        a = e.arg(0)
        kk = a.decl().kind()
        if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            ch = [z3.ToReal(c) if not z3.is_int_value(c) else z3.RealVal(c.as_long()) for c in a.children()]
            if kk == z3.Z3_OP_ADD:
                return _poly(z3.Sum(*ch)) if len(ch) > 1 else _poly(ch[0])
            if kk == z3.Z3_OP_MUL:
                return _poly(z3.Product(*ch))
            if kk == z3.Z3_OP_SUB:
                out = _poly(ch[0])
                for c in ch[1:]:
                    out = _padd(out, _poly(c), -1)
                return out
            return _padd({}, _poly(ch[0]), -1)
        if z3.is_int_value(a):
            return {(): Fraction(a.as_long())} if a.as_long() else {}
    return _atom(e)


def mono_term(m):
    if not m:
        return z3.RealVal(1)
    ts = [_atoms[i] for i in m]
    return ts[0] if len(ts) == 1 else z3.Product(*ts)


def from_poly(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m in sorted(p):
        c = p[m]
        if not m:
            ts.append(rat(c))
        elif c == 1:
            ts.append(mono_term(m))
        else:
            ts.append(rat(c) * mono_term(m))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


# ------------------------------------------------------------------ values


class Mut:
    """mutable heap cell: content in .c (immutable)"""

    def __init__(self, c):
        self.c = c
        ctx.cells.append(self)


class Env(Mut):
    def __init__(self, parent=None, module=None, func=None):
        super().__init__({})
        self.parent, self.module, self.func = parent, module, func

    def set(self, k, v):
        d = dict(self.c)
        d[k] = v
        self.c = d


class Opt:
    """value or None; none: Bool term"""

    def __init__(self, none, val):
        self.none, self.val = none, val


class Union:
    """one of several values under exclusive, exhaustive conditions"""

    def __init__(self, alts):
        self.alts = alts


class ArrC:
    def __init__(self, shape, fn):
        self.shape, self.fn = tuple(shape), fn


class Arr(Mut):
    """numpy array or pandas Series; .index label function for Series"""

    def __init__(self, shape, fn, series=None):
        super().__init__(ArrC(shape, fn))
        self.series = series  # None or a dict with row label info

    shape = property(lambda self: self.c.shape)
    fn = property(lambda self: self.c.fn)
    ndim = property(lambda self: len(self.c.shape))


class Conc:
    def __init__(self, items):
        self.items = tuple(items)


class Fam:
    """items(i) for i in range(n): each a list of (guard, value) ; plain means exactly one, guard True"""

    def __init__(self, n, items, plain=False, tag=None):
        self.n, self.items, self.plain, self.tag = n, items, plain, tag


class Cat:
    def __init__(self, parts):
        self.parts = tuple(parts)


class Uniq:
    """first occurrences, in order, of the items of a sequence content"""

    def __init__(self, inner):
        self.inner = inner


class Marker:
    """carried (havocked) content inside a loop body; .base the marker id, .delta pushed items"""

    def __init__(self, name, delta=(), member=None):
        self.name, self.delta, self.member = name, tuple(delta), member


class ListV(Mut):
    def __init__(self, content, kind="list"):
        super().__init__(content if not isinstance(content, (list, tuple)) else Conc(content))
        self.kind = kind


class TupleV:
    def __init__(self, items):
        self.items = tuple(items)


class DFam:
    """entries key(i)->val(i) for i in range(n) with guard(i); keys pairwise distinct"""

    def __init__(self, n, key, val, guard, tag=None):
        self.n, self.key, self.val, self.guard, self.tag = n, key, val, guard, tag


class DConc:
    def __init__(self, items):
        self.items = tuple(items)  # ((key, value), ...)


class DLayers:
    def __init__(self, layers):
        self.layers = tuple(layers)


class DictV(Mut):
    def __init__(self, content):
        super().__init__(content)


class SetV(Mut):
    def __init__(self, content):
        super().__init__(content)


class Obj(Mut):
    """object of an interpreted class; fields overlay in .c; sym = Ref term for lazily symbolic fields"""

    # owned: "made" by the code under execution (or a parameter), "elem" of a family of objects it made, or None: an object that exists elsewhere
    def __init__(self, cls, fields=None, sym=None, origin=None, owned=None):
        super().__init__(dict(fields or {}))
        self.cls, self.sym, self.origin, self.owned = cls, sym, origin, owned


class Opaque:
    """value of an external library object"""

    def __init__(self, kind, args=()):
        self.kind, self.args = kind, args
        self.attrs = {}


class Rope:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope):
                out.extend(p.parts)
            elif isinstance(p, str) and p == "":
                continue
            else:
                out.append(p)
        m = []
        for p in out:
            if m and isinstance(p, str) and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        self.parts = tuple(m)


class FmtPart:
    """text of a number under a format spec"""

    def __init__(self, spec, term):
        self.spec, self.term = spec, term


class RepPart:
    """text repeated n times"""

    def __init__(self, text, n):
        self.text, self.n = text, n


class FamPart:
    """concatenation over i in range(n) of rope(i) (empty when the guard is false), with separator"""

    def __init__(self, n, rope, guard, sep=""):
        self.n, self.rope, self.guard, self.sep = n, rope, guard, sep


class EnumV:
    def __init__(self, cls, name):
        self.cls, self.name = cls, name


def strlit(s):
    """Str-sorted constant of a literal"""
    if s not in ctx.strlits:
        ctx.strlits[s] = z3.Const(f"str!{s}", Str)
        k = len(ctx.strlits)
        c = ctx.strlits[s]
        code = z3.Function("strcode", Str, Int)

        class L(Symbol):
            pass

        sym = L(f"str!{s}", "strlit", (), [], [], [((), Str)], lambda me, p: [code(c) == k])
        ctx.symbols[f"str!{s}"] = sym
    return ctx.strlits[s]


def S(x):
    """to a Str term"""
    if isinstance(x, str):
        return strlit(x)
    if is_z3(x) and x.sort() == Str:
        return x
    if isinstance(x, Rope):
        return rope_term(x)
    raise Unsupported(f"not a string: {x!r}")


def rope_term(r):
    if len(r.parts) == 0:
        return strlit("")
    if len(r.parts) == 1 and not isinstance(r.parts[0], (FmtPart, RepPart, FamPart)):
        return S(r.parts[0])
    bodies, skel = [], []
    for p in r.parts:
        if isinstance(p, str):
            skel.append(p)
        elif is_z3(p):
            skel.append(("z", len(bodies)))
            bodies.append(p)
        elif isinstance(p, FmtPart) and is_z3(p.term):
            skel.append((p.spec, len(bodies)))
            bodies.append(p.term)
        elif isinstance(p, FmtPart):
            skel.append((p.spec, str(p.term)))
        elif isinstance(p, RepPart):
            skel.append(("rep", p.text, len(bodies)))
            bodies.append(I(p.n))
        else:
            raise Unsupported("structured text used as a key")
    f = z3.Function(f"rope[{skel!r}]", *[b.sort() for b in bodies], Str)
    return f(*bodies) if bodies else z3.Const(f"rope[{skel!r}]", Str)


# ------------------------------------------------------------------ merging


def merge(alts):
    """alts: [(cond, value)] with exclusive exhaustive conds -> one value"""
    if len(alts) == 1:
        return alts[0][1]
    vals = [v for _, v in alts]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    flat = []
    for c, v in alts:
        if isinstance(v, Union):
            flat.extend((And(c, c2), v2) for c2, v2 in v.alts)
        else:
            flat.append((c, v))
    alts, vals = flat, [v for _, v in flat]
    if all(is_bool(v) for v in vals):
        return _ite([(c, B(v)) for c, v in alts])
    if all(is_int(v) for v in vals):
        if all(isinstance(v, int) and v == vals[0] for v in vals):
            return vals[0]
        return _ite([(c, I(v)) for c, v in alts])
    if all(is_num(v) and not (isinstance(v, float) and v in (float("inf"), float("-inf"))) for v in vals):
        return _ite([(c, R(v)) for c, v in alts])
    if all(isinstance(v, str) or (is_z3(v) and v.sort() == Str) for v in vals):
        if all(isinstance(v, str) and v == vals[0] for v in vals):
            return vals[0]
        if not all(isinstance(v, str) for v in vals):
            return _ite([(c, S(v)) for c, v in alts])
    if any(v is None or isinstance(v, Opt) for v in vals):
        nn, rest = [], []
        for c, v in alts:
            if v is None:
                nn.append(c)
            elif isinstance(v, Opt):
                nn.append(And(c, v.none))
                rest.append((And(c, Not(v.none)), v.val))
            else:
                rest.append((c, v))
        if not rest:
            return None
        return Opt(Or(*nn), merge(rest))
    if all(isinstance(v, TupleV) for v in vals) and len({len(v.items) for v in vals}) == 1:
        return TupleV(merge([(c, v.items[i]) for c, v in alts]) for i in range(len(vals[0].items)))
    if all(isinstance(v, EnumV) for v in vals) and len({(v.cls, v.name) for v in vals}) == 1:
        return v0
    if all(is_z3(v) for v in vals) and len({v.sort().name() for v in vals}) == 1:
        return _ite(alts)
    # fold identical values together
    out = []
    for c, v in alts:
        for j, (c2, v2) in enumerate(out):
            if v2 is v or (is_z3(v) and is_z3(v2) and v.eq(v2)) or (isinstance(v, str) and isinstance(v2, str) and v == v2):
                out[j] = (Or(c2, c), v2)
                break
        else:
            out.append((c, v))
    if len(out) == 1:
        return out[0][1]
    return Union(out)


def _ite(alts):
    r = alts[-1][1]
    for c, v in reversed(alts[:-1]):
        r = If(c, v, r)
    return r


def subst_value(v, pairs):
    """substitute z3 constants inside an immutable-ish value (cells are rebuilt)"""
    if not pairs:
        return v
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if v is None or isinstance(v, (bool, int, float, str, EnumV)):
        return v
    if isinstance(v, Opt):
        return Opt(subst_value(v.none, pairs), subst_value(v.val, pairs))
    if isinstance(v, Union):
        return Union([(subst_value(c, pairs), subst_value(x, pairs)) for c, x in v.alts])
    if isinstance(v, TupleV):
        return TupleV(subst_value(x, pairs) for x in v.items)
    if isinstance(v, Rope):
        return Rope([subst_value(p, pairs) for p in v.parts])
    if isinstance(v, FmtPart):
        return FmtPart(v.spec, subst_value(v.term, pairs))
    if isinstance(v, RepPart):
        return RepPart(v.text, subst_value(v.n, pairs))
    if isinstance(v, FamPart):
        return FamPart(subst_value(v.n, pairs), _sfn(v.rope, pairs), _sfn(v.guard, pairs), v.sep)
    if isinstance(v, Arr):
        a = Arr([subst_value(s, pairs) for s in v.shape], _sfn(v.fn, pairs), v.series)
        for at in ("clauses",):
            if hasattr(v, at):
                setattr(a, at, getattr(v, at))
        return a
    if isinstance(v, ListV):
        return ListV(subst_content(v.c, pairs), v.kind)
    if isinstance(v, DictV):
        return DictV(subst_content(v.c, pairs))
    if isinstance(v, SetV):
        return SetV(subst_content(v.c, pairs))
    if isinstance(v, Obj):
        o = Obj(v.cls, {k: subst_value(x, pairs) for k, x in v.c.items()}, None if v.sym is None else z3.substitute(v.sym, *pairs),
                owned="elem" if v.owned in ("made", "elem") else None)
        return o
    if isinstance(v, Opaque):
        o = Opaque(v.kind, tuple(subst_value(a, pairs) for a in v.args))
        o.attrs = {k: subst_value(x, pairs) for k, x in v.attrs.items()}
        return o
    if hasattr(v, "subst"):
        return v.subst(pairs)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, dict):
        return {k: subst_value(x, pairs) for k, x in v.items()}
    return v


def _sfn(fn, pairs):
    return lambda *a: subst_value(fn(*a), pairs)


def _sitems(fn, pairs):
    return lambda i: [(subst_value(g, pairs), subst_value(x, pairs)) for g, x in fn(i)]


def subst_content(c, pairs):
    if isinstance(c, Conc):
        return Conc([subst_value(x, pairs) for x in c.items])
    if isinstance(c, Fam):
        return Fam(subst_value(c.n, pairs), _sitems(c.items, pairs), c.plain, c.tag)
    if isinstance(c, Cat):
        return Cat([subst_content(p, pairs) for p in c.parts])
    if isinstance(c, Uniq):
        return Uniq(subst_content(c.inner, pairs))
    if isinstance(c, DConc):
        return DConc([(subst_value(k, pairs), subst_value(x, pairs)) for k, x in c.items])
    if isinstance(c, DFam):
        return DFam(subst_value(c.n, pairs), _sfn(c.key, pairs), _sfn(c.val, pairs), _sfn(c.guard, pairs), c.tag)
    if isinstance(c, DLayers):
        return DLayers([subst_content(x, pairs) for x in c.layers])
    return c


def axsym(name, axioms):
    """register universally quantified axioms for a declaration name"""
    if name not in ctx.symbols:
        s = Symbol(name, name, (), [], [], [], None)
        s._ax = list(axioms)
        ctx.symbols[name] = s
    return ctx.symbols[name]
