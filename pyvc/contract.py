"""Contracts: loading, symbolic verification of the real function bodies, modular use at call sites."""
from __future__ import annotations

import ast
import os
import re
import time
import traceback

import z3

from . import reduce as rd
from . import core
from .core import *  # noqa
from .interp import Builtin, ClassV, ExtFn, FuncV, Interp, ModV, Module, Ret
from .lib import Lib
from .loops import I_
from .pdlib import DF

HERE = os.path.dirname(os.path.abspath(__file__))
CDIR = os.path.join(os.path.dirname(HERE), "contracts")
MAX_CONDS = 4000


class Contract:
    """one contract class of a sidecar file (kept as AST: the same text runs natively)"""

    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.fns, self.attrs = {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.fns[st.name] = st
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                try:
                    self.attrs[st.targets[0].id] = ast.literal_eval(st.value)
                except ValueError:
                    pass
        self.target = self.attrs.get("target")
        self.props = self.attrs.get("props", [])
        self.types = self.attrs.get("types", {})
        self.modular = self.attrs.get("modular", False)
        self.assumed = self.attrs.get("assumed", False)

    @property
    def id(self):
        return f"{self.module.name}.{self.name}"

    def spec(self, I, fname, env):
        """evaluate a spec function on the values in env (by parameter name)"""
        fn = self.fns[fname]
        f = FuncV(fn, self.module, f"{self.name}.{fname}")
        args = [env[a.arg] for a in fn.args.args]
        ctx.spec += 1
        try:
            return I.inline(f, dict(zip([a.arg for a in fn.args.args], args)))
        finally:
            ctx.spec -= 1

    def ensures_names(self):
        return [n for n in self.fns if n.startswith("ensures") and n != "ensures_raised"]

    # -------------------------------------------------------------- modular use
    def apply(self, I, f, d):
        return self._apply(I, dict(d), f, None)

    def apply_construct(self, I, cls, args, kwargs):
        d = dict(kwargs)
        if args:
            raise Unsupported("positional construction")
        for n, dv in self.attrs.get("defaults", {}).items():
            d.setdefault(n, dv)
        if "kwargs" in [a.arg for fn in self.fns.values() for a in fn.args.args]:
            d = {"kwargs": DictV(DConc(list(d.items()))), **d}
        return self._apply(I, d, None, cls)

    def _apply(self, I, d, f, cls):
        ctx.used_contracts.add(self.id)
        pre = []
        if "requires" in self.fns:
            for j, g in enumerate(conjuncts(I, self.spec(I, "requires", d))):
                if ctx.spec:
                    pre.append(B(g))
                    continue
                ctx.obligations.append((f"call {self.target}: requires[{j}]", list(ctx.pcf()), B(g)))
                ctx.assume(B(g))
        if "raises" in self.fns and not ctx.spec:
            r = self.spec(I, "raises", d)
            for k, cond in r.c.items:
                if I.decide(B(cond)):
                    raise PyRaise(k)
        if "value" in self.fns:
            return self.spec(I, "value", {**d, "old": None})
        rt = self.attrs.get("returns")
        if rt is None:
            ann = f.node.returns if f is not None else None
            t = ("obj", cls.name) if cls is not None else I.lib.ob.types.conv(ann, f.module)
        else:
            t = I.lib.ob.types.parse(rt, f.module if f is not None else None)
        res = I.lib.ob.mk(t, *self.result_name(I, d))
        env = dict(d)
        env["result"] = res
        env["old"] = self.spec(I, "old", d) if "old" in self.fns else None
        for en in self.ensures_names():
            if en.startswith("ensures_native"):
                continue
            for g in conjuncts(I, self.spec(I, en, env)):
                if z3.is_false(z3.simplify(B(g))):
                    raise Unsupported(f"the contract {self.id} cannot be met by a value of its result type")
                ctx.assume(Implies(And(*pre), B(g)))
        return res

    def result_name(self, I, d):
        try:
            ts = []
            skel = []
            for k in sorted(d):
                sk, t = key_of(I, d[k])
                skel.append((k, *sk))
                ts.extend(t)
            if self.attrs.get("fresh"):
                raise Unsupported("key")
            return f"{self.target}{skel!r}", ts
        except Unsupported:
            return f"{self.target}!{next(ctx.counter)}", list(ctx.generics)


def key_of(I, v):
    """(shape, terms) of a value such that equal shapes and terms mean equal values"""
    from .loops import value_terms

    if v is None or isinstance(v, (str, bool, int, float)):
        return (v,), []
    if isinstance(v, (ListV, DictV)):
        c = v.c
        tag = getattr(c, "tag", None)
        if isinstance(tag, tuple) and tag[0] == "sym" and is_z3(c.n) and c.n.decl().name() == tag[1] + ".len":
            # an unmodified symbolic sequence: a function of the terms it was made from
            return (tag[1], c.n.num_args()), list(c.n.children())
    if isinstance(v, Arr):
        # an array: a function of its shape and elements
        from .nplib import libfn

        outs, _ = libfn("ARRAY", [v], [((), z3.IntSort())])
        return ("array", len(v.shape)), [outs[0]]
    if isinstance(v, Opt):
        sk, t = key_of(I, v.val)
        return ("opt", *sk), [B(v.none)] + t
    if isinstance(v, (Union, TupleV)):
        sks, ts = [], []
        for x in (v.items if isinstance(v, TupleV) else v.alts):
            if isinstance(v, Union):
                ts.append(B(x[0]))
                x = x[1]
            sk, t = key_of(I, x)
            sks.append(sk)
            ts += t
        return (type(v).__name__, *sks), ts
    t = [v.sym] if isinstance(v, Obj) and v.sym is not None and I.pristine(v) else value_terms(v)
    if t is None:
        raise Unsupported("key")
    return (type(v).__name__, len(t)), t


def conjuncts(I, v):
    """a spec value (bool term, list of them) as a list of Bool terms"""
    if isinstance(v, (ListV, TupleV)):
        c = v.c if isinstance(v, ListV) else Conc(v.items)
        if isinstance(c, Conc):
            out = []
            for x in c.items:
                out.extend(conjuncts(I, x))
            return out
        n = I.lib.content_len(c)
        return [rd.FORALL(lambda i: B(I.truth_term(I.lib.content_item(c, i))), n)]
    t = I.truth_term(v)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    return split_and(t)


def split_and(t):
    if z3.is_and(t):
        out = []
        for c in t.children():
            out.extend(split_and(c))
        return out
    return [t]


PRELUDE = {
    "NATIVE": lambda: False,
    "np": lambda: ModV("numpy"),
    "pd": lambda: ModV("pandas"),
    "griddata": lambda: ExtFn("scipy.interpolate.griddata"),
    "normaltest": lambda: ExtFn("scipy.stats.normaltest"),
    "gaussian_filter": lambda: ExtFn("scipy.ndimage.gaussian_filter"),
    "interp1d": lambda: ExtFn("scipy.interpolate.interp1d"),
    "norm": lambda: ModV("scipy.stats.norm"),
    "simpson": lambda: ExtFn("scipy.integrate.simpson"),
    "yule_walker": lambda: ExtFn("statsmodels.regression.linear_model.yule_walker"),
}


class SpecModule(Module):
    def __init__(self, name, path, interp):
        self.name, self.path, self.interp, self.package = name, path, interp, "contracts"
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.defs, self.cache = {}, {}
        self.collect(self.tree.body)

    def do_import(self, st, a):
        if isinstance(st, ast.ImportFrom) and (st.module or "").startswith("contracts"):
            m = self.interp.specmodule(st.module.split(".")[-1])
            return m.lookup(a.name)
        if isinstance(st, ast.ImportFrom) and (st.module or "").startswith("chainconsumer."):
            return self.interp.module(st.module.split(".", 1)[1]).lookup(a.name)
        return super().do_import(st, a)

    def lookup(self, name):
        if name not in self.defs:
            for st in self.tree.body:
                if isinstance(st, ast.ImportFrom) and (st.module or "").startswith("contracts") and any(a.name == "*" for a in st.names):
                    try:
                        return self.interp.specmodule(st.module.split(".")[-1]).lookup(name)
                    except KeyError:
                        continue
            if name in PRELUDE:
                return PRELUDE[name]()
        return super().lookup(name)


class World(Interp):
    def __init__(self):
        super().__init__({})
        self.lib = Lib(self)
        self.specs = {}
        install_spec_builtins(self)

    def specmodule(self, name):
        if name not in self.specs:
            self.specs[name] = SpecModule(name, os.path.join(CDIR, name + ".py"), self)
        return self.specs[name]

    def contracts(self, modname):
        m = self.specmodule(modname)
        return [Contract(st, m) for st in m.tree.body if isinstance(st, ast.ClassDef)
                and any(isinstance(x, ast.Assign) and x.targets[0].id == "target" for x in st.body)]

    def load_invariants(self, modname="invariants"):
        m = self.specmodule(modname)
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and st.targets[0].id == "FIELD_TYPES":
                self.lib.ob.field_types = ast.literal_eval(st.value)
        for nm, st in list(m.defs.items()):
            if isinstance(st, ast.FunctionDef) and nm.startswith("inv_"):
                cn = nm[4:]
                self.lib.ob.invariants[cn] = self.make_inv(cn, m, st)

    def make_inv(self, cn, m, st):
        cache = {}

        def inv():
            if "ax" not in cache:
                cache["ax"] = []
                r = z3.Const(f"@inv_{cn}", Ref)
                ctx.all_generics[r.get_id()] = r
                ctx.generics.append(r)
                ctx.spec += 1
                try:
                    o = Obj(self.cls(cn), None, r)

                    def thunk():
                        return conjuncts(self, self.inline(FuncV(st, m, f"inv_{cn}"), {st.args.args[0].arg: o}))

                    outs = ctx.explore(thunk)
                finally:
                    ctx.spec -= 1
                    ctx.generics.pop()
                for oc in outs:
                    for g in oc.value:
                        body = Implies(And(*oc.conds), And(*oc.facts, g)) if (oc.conds or oc.facts) else g
                        cache["ax"].append(close(r, body))
            return cache["ax"]

        return inv


def close(r, body):
    """ForAll r: body, merging the binder of a top level quantifier"""
    if z3.is_quantifier(body) and body.is_forall():
        vs = [z3.Const(f"@iq{i}", body.var_sort(i)) for i in range(body.num_vars())]
        inner = z3.substitute_vars(body.body(), *reversed(vs))
        return z3.ForAll([r] + vs, inner)
    return z3.ForAll([r], body)


# ------------------------------------------------------------------ spec builtins (symbolic side)


def install_spec_builtins(I):
    L = I.lib

    def forall(n, f, lo=0):
        if isinstance(n, (ListV, TupleV, SetV, DictV)) or not (is_int(n) or isinstance(n, int)):
            c = L.content_of(n)
            return forall_content(c, f)
        return rd.FORALL(lambda i: B(I.truth_term(I.sub(lambda: I.truth_term(I.call(f, [i], {})), rng(lo, i, n)))), n, lo)

    def rng(lo, i, n):
        return [I_(lo) <= I_(i), I_(i) < I_(n)] if is_z3(i) else []

    def forall_content(c, f):
        one = lambda v, a=(): B(I.truth_term(I.sub(lambda: I.truth_term(I.call(f, [v], {})), a)))
        if isinstance(c, Conc):
            return And(*[one(v) for v in c.items])
        if isinstance(c, Cat):
            return And(*[forall_content(p, f) for p in c.parts])
        if isinstance(c, Fam):
            return rd.FORALL(lambda i: And(*[Implies(B(g), one(v, rng(0, i, c.n) + [B(g)])) for g, v in c.items(i)]), c.n)
        n = L.content_len(c)
        return rd.FORALL(lambda i: one(L.content_item(c, i), rng(0, i, n)), n)

    def exists(n, f, lo=0):
        if isinstance(n, (ListV, TupleV, SetV, DictV)) or not (is_int(n) or isinstance(n, int)):
            return Not(B(forall_content(L.content_of(n), Builtin("not", lambda v: Not(B(I.truth_term(I.call(f, [v], {}))))))))
        return rd.EXISTS(lambda i: B(I.truth_term(I.sub(lambda: I.truth_term(I.call(f, [i], {})), rng(lo, i, n)))), n, lo)

    def implies(a, b):
        return Implies(B(I.truth_term(a)), B(I.truth_term(b)))

    def eq(a, b, tol=None, scale=None):
        r = L.eq(a, b)
        if isinstance(r, Arr):
            from .loops import I_ as ii

            sh = r.shape
            aa, bb = L.np.asarray(a), L.np.asarray(b)
            if isinstance(aa, Arr) and isinstance(bb, Arr):
                if len(aa.shape) != len(bb.shape):
                    return False
                dims = [B(L.eq(x, y)) for x, y in zip(aa.shape, bb.shape)]
                ks = []

                def nest(d, ixs):
                    if d == len(sh):
                        return B(L.eq(aa.fn(*ixs), bb.fn(*ixs)))
                    return rd.FORALL(lambda i: nest(d + 1, ixs + [i]), aa.shape[d])

                return And(*dims, nest(0, []))
            return L.np.red("all", r, None)
        return r

    def lazyif(c, a, b):
        c = I.truth_term(c)
        cb = conc_bool(c if isinstance(c, bool) else z3.simplify(c))
        if cb is not None:
            return I.call(a if cb else b, [], {})
        x = I.sub(lambda: I.call(a, [], {}), [c])
        y = I.sub(lambda: I.call(b, [], {}), [Not(c)])
        return merge([(c, x), (Not(c), y)])

    def firstidx(n, f):
        return rd.FIRST(lambda i: B(I.truth_term(I.call(f, [i], {}))), n)

    def sumof(n, f):
        return rd.SUM(lambda i: R(I.call(f, [i], {})), n)

    def calls(ax, name):
        """the recorded calls of a drawing method (as a sequence of (args, kwargs))"""
        return L.ob.trace[name]

    def is_none(x):
        if x is None:
            return True
        if isinstance(x, Opt):
            return x.none
        if isinstance(x, Union):
            return Or(*[And(c, B(is_none(v))) for c, v in x.alts])
        return False

    def val(x):
        """the value of an optional known to be present"""
        return x.val if isinstance(x, Opt) else x

    def le(a, b, tol=None):
        return L.order("<=", val(a), val(b))

    def lt(a, b):
        return L.order("<", val(a), val(b))

    def finite(a):
        if isinstance(a, DF):
            d = a.c
            if d.fin is None:
                return True
            return rd.FORALL(lambda j: rd.FORALL(lambda i: B(d.fin(L.content_item(d.cols, j), I_(i))), d.n), L.content_len(d.cols))
        return True

    def nrows(df):
        return df.c.n

    def cell(df, c, i):
        return df.c.cell(c, I_(i))

    def distinct(l):
        c = L.content_of(l)
        n = L.content_len(c)
        a = lambda i: L.content_item(c, i)
        return rd.FORALL(lambda i: rd.FORALL(lambda j: Not(B(L.eq(a(i), a(j)))), i), n)

    def sorted_lt(a, strict=True):
        a = L.np.asarray(a)
        n = a.shape[0]
        op = (lambda x, y: R(x) < R(y)) if strict else (lambda x, y: R(x) <= R(y))
        return rd.FORALL(lambda i: rd.FORALL(lambda j: op(a.fn(i), a.fn(j)), n, I_(i) + 1), n)

    def sorted_le(a):
        return sorted_lt(a, False)

    def nonneg(a):
        a = L.np.asarray(a)
        return rd.FORALL(lambda i: R(a.fn(i)) >= 0, a.shape[0])

    def libval(name, *args):
        raise Unsupported(name)

    def same_object(a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Union):
                return Or(*[And(B(c), B(same_object(v, y))) for c, v in x.alts])
            if isinstance(x, Opt):
                return B(x.none) if y is None else And(Not(B(x.none)), B(same_object(x.val, y)))
        return a is b or (isinstance(a, Obj) and isinstance(b, Obj) and a.sym is not None and b.sym is not None and a.sym == b.sym)

    def cells_equal(a, b):
        """two tables have the same shape, columns and values"""
        ca, cb = a.c, b.c
        na, nb = L.content_len(ca.cols), L.content_len(cb.cols)
        ia, ib = (lambda j: L.content_item(ca.cols, j)), (lambda j: L.content_item(cb.cols, j))
        return And(B(L.eq(ca.n, cb.n)), B(L.eq(na, nb)), rd.FORALL(lambda j: B(L.eq(ia(j), ib(j))), na),
                   rd.FORALL(lambda j: rd.FORALL(lambda i: B(L.eq(ca.cell(ia(j), I_(i)), cb.cell(ib(j), I_(i)))), ca.n), na))

    L.spec_builtins.update(dict(forall=forall, exists=exists, implies=implies, eq=eq, lazyif=lazyif, firstidx=firstidx, sumof=sumof,
                                calls=calls, is_none=is_none, val=val, le=le, lt=lt, finite=finite, nrows=nrows, cell=cell,
                                distinct=distinct, sorted_lt=sorted_lt, sorted_le=sorted_le, nonneg=nonneg, same_object=same_object, cells_equal=cells_equal))


# ------------------------------------------------------------------ verification of one contract


class Obligation:
    def __init__(self, name, hyps, goal, path):
        self.name, self.hyps, self.goal, self.path = name, hyps, goal, path

    def smt2(self, ground=False):
        """the negated obligation; ground: goal opened and index axioms instantiated at its terms"""
        extra, goal = open_goal(self.goal) if ground else ([], self.goal)
        fs = list(self.hyps) + extra + [z3.Not(goal)]
        ax = ctx.axioms_for(fs)
        s = z3.Solver()
        for f in ax:
            s.add(f)
        for f in fs:
            s.add(f)
        if ground:
            for f in rd.instances(fs):
                s.add(f)
        return renamed(s.to_smt2())


def renamed(text):
    """the printer's local names count the terms made so far; numbered by appearance instead, the text depends on the question only"""
    m = {}
    return re.sub(r"([$?])x\d+", lambda g: m.setdefault(g.group(), f"{g.group(1)}x{len(m)}"), text)


def smt2_inst(o):
    """the negated obligation skolemised, with ground instances of its integer quantifiers"""
    from .ground import grounded

    fs = list(o.hyps) + [z3.Not(o.goal)]
    ax = ctx.axioms_for(fs)
    sk, inst = grounded(fs, list(ax))
    s = z3.Solver()
    for f in sk + inst:
        s.add(f)
    return renamed(s.to_smt2())


def open_goal(g):
    """strip the leading universal quantifiers and implications of a goal: (hypotheses, goal)"""
    hyps = []
    for _ in range(8):
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const(f"sk!{g.var_name(i)}!{next(ctx.counter)}", g.var_sort(i)) for i in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(vs))
        elif z3.is_implies(g):
            hyps.append(g.arg(0))
            g = g.arg(1)
        else:
            break
    return hyps, g


def fresh_world(modular=(), deps=()):
    """new interpreter over a fresh term context with the modular contracts registered"""
    ctx.reset()
    core._atoms.clear()
    core.Canon.full_memo.clear()
    core._ph.clear()
    w = World()
    try:
        w.load_invariants()
    except FileNotFoundError:
        pass
    w.lib.ob.trace = {m: ListV(Conc([])) for m in w.lib.ob.METHODS}
    return w


def register_modular(w, con):
    """the callee contracts this contract's proof relies on (each is itself verified in the same run, or listed as assumed)"""
    for cid in con.attrs.get("uses", []):
        mod, nm = cid.split(".")
        for c in w.contracts(mod):
            if c.name == nm:
                w.registry[c.target] = c
    for t, rt in con.attrs.get("pure", {}).items():
        w.registry[t] = PureCallee(t, rt)


class PureCallee:
    """a callee whose result only matters as a function of its arguments: an uninterpreted function (it is assumed to return normally and to
    leave its arguments alone)"""

    def __init__(self, target, rt):
        self.target, self.attrs, self.id = target, {"returns": rt}, f"pure:{target}"
        self.fns = {}

    def apply(self, I, f, d):
        ctx.tainted.add(f"{self.target} returns normally, deterministically and without side effects (its result is specified elsewhere)")
        t = I.lib.ob.types.parse(self.attrs["returns"], f.module) if self.attrs["returns"] else I.lib.ob.types.conv(f.node.returns, f.module)
        return I.lib.ob.mk(t, *Contract.result_name(self, I, d))


_used = None


def used_anywhere():
    """ids of the contracts some other contract relies on modularly"""
    global _used
    if _used is None:
        from .prover import contract_index

        _used = {u for at in contract_index().values() for u in at.get("uses", [])}
    return _used


def symbolic_params(w, con, f):
    env = {}
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        n = x.arg
        t = con.types.get(n)
        if n in ("self", "cls") and t is None:
            if f.kind == "class" or n == "cls":
                env[n] = f.cls
                continue
            ty = ("obj", f.cls.name)
        elif isinstance(t, str):
            if t == "default":
                continue
            if t == "rawdf":
                # a table that may hold NaN or infinities
                env[n] = w.lib.ob.mkdf(n, [], finite=False)
                env[n].frozen = False
                continue
            if t.startswith("stub:"):
                env[n] = stub(w, n, ast.literal_eval(t[5:]), f.module)
                continue
            if t.startswith("="):
                env[n] = w.eval(ast.parse(t[1:].strip(), mode="eval").body, Env(module=f.module))
                continue
            ty = w.lib.ob.types.parse(t, f.module)
        elif t is None:
            ty = w.lib.ob.types.conv(x.annotation, f.module)
        env[n] = w.lib.ob.mk(ty, n, [], f.module)
        if isinstance(env[n], Obj) and env[n].sym is not None:
            materialise(w, env[n], con)
    for n, t in con.types.items():
        if n.startswith("ghost_"):
            env[n] = w.lib.ob.mk(w.lib.ob.types.parse(t, f.module), n, [], f.module)
    if a.kwarg is not None and con.types.get(a.kwarg.arg) is not None:
        t = con.types[a.kwarg.arg]
        env[a.kwarg.arg] = DictV(DConc([(k, w.lib.ob.mk(w.lib.ob.types.parse(v, f.module), f"kw.{k}", [], f.module)) for k, v in t.items()]))
    elif a.kwarg is not None:
        env[a.kwarg.arg] = DictV(DConc([]))
    return env


def stub(w, name, methods, module):
    """an external object whose methods are arbitrary pure functions of their arguments"""
    from .loops import value_terms

    o = Opaque("stub:" + name)

    def meth(m, t):
        ty = w.lib.ob.types.parse(t, module)

        def call(*args, **kw):
            ts, skel = [], []
            for k, v in list(enumerate(args)) + sorted(kw.items()):
                x = value_terms(v)
                if x is None:
                    raise Unsupported(f"argument {k} of {name}.{m}")
                skel.append((k, v if not x else len(x)))
                ts.extend(x)
            return w.lib.ob.mk(ty, f"{name}.{m}{skel!r}", ts, module)

        return Builtin(m, call)

    o.attrs = {m: meth(m, t) for m, t in methods.items()}
    return o


def materialise(w, o, con=None):
    """give a symbolic object parameter real mutable cells for its fields"""
    o.owned = "param"
    d = dict(o.c)
    for name in w.fields(o.cls):
        if name == "model_config":
            continue
        try:
            v = w.lib.ob.sym_field(o, name)
        except (Unsupported, KeyError):
            continue
        if isinstance(v, DF):
            v.frozen = False
        if isinstance(v, Obj) and v.sym is not None and not (con and con.attrs.get("shallow")):
            pass
        if isinstance(v, (DictV, ListV, SetV, DF)):
            d[name] = v
    o.c = d
    o.pristine = (d, [(v, v.c) for v in d.values() if isinstance(v, Mut)])


def constructor_call(w, con, cls):
    """def construct(field, ...): return Class(field=field, ...)  over the fields the contract names; the others keep their defaults"""
    names = []
    for nm, fn in con.fns.items():
        names += [x.arg for x in fn.args.args]
    names = [n for n in dict.fromkeys(names + list(con.types)) if n not in ("old", "result") and not n.startswith("ghost_")]
    fl = w.fields(cls)
    src = f"def construct({', '.join(names)}):\n    return {cls.name}({', '.join(f'{n}={n}' for n in names)})"
    node = ast.parse(src).body[0]
    for x in node.args.args:
        if x.arg in fl:
            x.annotation = fl[x.arg][0]
    return FuncV(node, cls.module, f"{cls.name}.construct")


def verify(con, w, deadline=60, opts=None):
    """symbolic execution of the target under the contract; returns a report dict with obligations"""
    f = w.resolve(con.target)
    if isinstance(f, ClassV):
        f = constructor_call(w, con, f)
    w.opaque = con.attrs.get("opaque", {})
    rep = {"contract": con.id, "target": con.target, "obligations": [], "undecided": [], "paths": 0, "error": None}
    t0 = time.time()
    ctx.deadline = t0 + deadline
    obls = []
    frame = con.id in used_anywhere()
    from .loopinv import EndPath, LoopInv, loops_of

    w.loopinv, base = {}, {}
    try:
        env0 = symbolic_params(w, con, f)
        ctx.obligations = []
        if con.attrs.get("loops"):
            ls = loops_of(f.node)
            for j, nm in con.attrs["loops"].items():
                if j >= len(ls):
                    raise Unsupported(f"the function has no loop {j}")
                w.loopinv[id(ls[j])] = LoopInv(con, j, nm, con.attrs.get("loop_vars", {}), base)

        def thunk():
            ctx.obligations = []
            env = dict(env0)
            if "requires" in con.fns:
                for g in conjuncts(w, con.spec(w, "requires", env)):
                    ctx.assume(B(g))
            mark_req = len(ctx.pc)
            old = con.spec(w, "old", env) if "old" in con.fns else None
            env["old"] = old
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            kind = f.kind
            g = f
            pre_heap = [(c, c.c) for c in ctx.cells if not isinstance(c, Env)] if frame else []
            try:
                call_env = Env(parent=f.closure, module=f.module, func=f)
                defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
                for x, dv in zip(a.kwonlyargs, a.kw_defaults):
                    if dv is not None:
                        defaults[x.arg] = dv
                d = {}
                for n in names:
                    if n in env:
                        d[n] = env[n]
                    else:
                        d[n] = env[n] = w.eval(defaults[n], Env(module=f.module))
                if a.kwarg is not None:
                    d[a.kwarg.arg] = env[a.kwarg.arg]
                if con.attrs.get("loops"):
                    base["old"] = old
                res = w.inline(g, d, call_env)
                outcome = ("ok", res)
            except EndPath:
                return list(ctx.obligations)
            except PyRaise as e:
                outcome = ("raise", e.kind)
            here = []
            if frame:
                # a contract that callers rely on modularly also promises to leave every existing object as it was
                same = all(c.c is v for c, v in pre_heap)
                here.append(("frame: existing objects unchanged", list(ctx.pcf()), z3.BoolVal(same)))
            tag = len(ctx.frames[-1].trail)
            if outcome[0] == "raise":
                goal = z3.BoolVal(False)
                if "raises" in con.fns:
                    r = con.spec(w, "raises", env)
                    conds = [B(w.truth_term(c)) for k, c in r.c.items if w.exc_matches(outcome[1], k) or k == outcome[1]]
                    goal = Or(*conds) if conds else z3.BoolVal(False)
                here.append((f"raises {outcome[1]} only as specified", list(ctx.pcf()), goal))
                if "ensures_raised" in con.fns:
                    for j, gg in enumerate(conjuncts(w, con.spec(w, "ensures_raised", env))):
                        here.append((f"ensures_raised[{j}]", list(ctx.pcf()), B(gg)))
            else:
                env["result"] = outcome[1]
                if "raises" in con.fns:
                    r = con.spec(w, "raises", env)
                    for k, c in r.c.items:
                        here.append((f"no return when {k} is due", list(ctx.pcf()), Not(B(w.truth_term(c)))))
                names = con.ensures_names()
                if "value" in con.fns:
                    names = ["value", *names]
                for en in names:
                    if en.startswith("ensures_native"):
                        continue
                    try:
                        ctx.goal = True
                        if en == "value":
                            here.append(("value", list(ctx.pcf()), B(w.lib.eq(env["result"], con.spec(w, "value", env)))))
                            continue
                        for j, gg in enumerate(conjuncts(w, con.spec(w, en, env))):
                            here.append((f"{en}[{j}]", list(ctx.pcf()), B(gg)))
                    except Unsupported as e:
                        rep["undecided"].append(f"{en}: {e}")
                    finally:
                        ctx.goal = False
            return list(ctx.obligations) + here

        outs = ctx.explore(thunk)
        rep["paths"] = len(outs)
        for pi, o in enumerate(outs):
            if o.kind == "raise":
                rep["undecided"].append(f"specification raised {o.value.kind} {o.value.msg}")
                continue
            for name, hyps, goal in o.value:
                obls.append(Obligation(f"{con.target}: {name}", hyps, goal, pi))
        # cover: the precondition is satisfiable on some path
        if outs:
            o = outs[0]
            rep["cover"] = list(o.conds) + list(o.facts)
    except Unsupported as e:
        rep["error"] = f"{type(e).__name__}: {e}"
        rep["tb"] = traceback.format_exc(limit=-6)
    except RecursionError:
        rep["error"] = "RecursionError"
    except PyRaise as e:
        rep["error"] = f"set-up raised {e.kind}"
    except z3.Z3Exception as e:
        rep["error"] = f"Z3Exception: {e}"
        rep["tb"] = traceback.format_exc(limit=-8)
    rep["symexec_s"] = round(time.time() - t0, 2)
    rep["funcs"] = sorted(ctx.funcs)
    rep["used_contracts"] = sorted(ctx.used_contracts)
    rep["trusted"] = sorted(ctx.trusted)
    rep["tainted"] = sorted(ctx.tainted)
    rep["obls"] = obls
    return rep
