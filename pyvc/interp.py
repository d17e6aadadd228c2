"""Symbolic interpreter over the AST of the real source."""
from __future__ import annotations

import ast
import builtins as _b
import os

import z3

from . import reduce as rd
from .core import *  # noqa
from .core import _ph  # noqa

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/chainconsumer"


class FuncV:
    def __init__(self, node, module, qual, cls=None, closure=None, kind="func", selfv=None):
        self.node, self.module, self.qual, self.cls, self.closure, self.kind, self.selfv = node, module, qual, cls, closure, kind, selfv

    def bind(self, selfv):
        return FuncV(self.node, self.module, self.qual, self.cls, self.closure, "bound", selfv)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ClassV:
    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name
        self.attrs = None

    def __repr__(self):
        return f"<class {self.name}>"


class ModV:
    """external library module path such as numpy / numpy.linalg"""

    def __init__(self, path):
        self.path = path


class ExtFn:
    def __init__(self, path):
        self.path = path


class Module:
    def __init__(self, name, path, interp, package):
        self.name, self.path, self.interp, self.package = name, path, interp, package
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.defs, self.cache = {}, {}
        self.collect(self.tree.body)

    def collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.defs[x.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    self.defs[(a.asname or a.name).split(".")[0]] = (st, a)
            elif isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                    # the repository puts type-only imports there
                    self.collect(st.body)
                elif isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                    self.collect(st.body)
                else:
                    self.collect(st.body)
                    self.collect(st.orelse)
            elif isinstance(st, ast.Try):
                self.collect(st.body)

    def lookup(self, name):
        if name in self.cache:
            return self.cache[name]
        if name not in self.defs:
            raise KeyError(name)
        d = self.defs[name]
        if isinstance(d, tuple):
            v = self.do_import(*d)
        elif isinstance(d, ast.FunctionDef):
            v = FuncV(d, self, f"{self.name}.{name}")
        elif isinstance(d, ast.ClassDef):
            v = ClassV(d, self, name)
        elif isinstance(d, ast.Assign):
            env = Env(module=self)
            self.interp.exec_stmt(d, env)
            v = env.c[name]
        else:
            env = Env(module=self)
            v = self.interp.eval(d.value, env) if d.value else None
        if not isinstance(v, Mut):
            self.cache[name] = v
        return v

    def do_import(self, st, a):
        if isinstance(st, ast.Import):
            nm = a.name if a.asname else a.name.split(".")[0]
            return ModV(nm)
        if st.level:
            base = self.package
            for _ in range(st.level - 1):
                base = base.rsplit(".", 1)[0] if "." in base else ""
            modname = ".".join(x for x in [base, st.module or ""] if x)
        else:
            modname = st.module or ""
            if modname == "chainconsumer" or modname.startswith("chainconsumer."):
                modname = modname[len("chainconsumer."):]
            else:
                if modname in ("__future__", "typing", "collections.abc"):
                    return ExtFn(f"{modname}.{a.name}")
                return ExtFn(f"{modname}.{a.name}")
        m = self.interp.module(modname)
        if m is None:
            raise Unsupported(f"import {modname}.{a.name}")
        try:
            return m.lookup(a.name)
        except KeyError:
            sub = self.interp.module(f"{modname}.{a.name}" if modname else a.name)
            if sub is None:
                raise Unsupported(f"import {modname}.{a.name}")
            return sub


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class CarryAtom:
    def __init__(self, name):
        self.name = name


class Poison:
    def __init__(self, why):
        self.why = why


class BoundV:
    """builtin method bound to a value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SymIter:
    """symbolic iteration: parts is a list of ('c', [values]) | ('f', Fam)"""

    def __init__(self, parts):
        self.parts = parts

    @property
    def concrete(self):
        return all(k == "c" for k, _ in self.parts)

    def items(self):
        out = []
        for k, p in self.parts:
            out.extend(p)
        return out


INF = float("inf")


class Interp:
    def __init__(self, registry=None):
        self.mods = {}
        self.registry = registry or {}  # qual -> Contract object
        self.verifying = None
        self.depth = 0
        self.specmods = {}
        self.inline_only = set()
        self.lib = None
        self.loop_hints = {}

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace(".", "/") if name else ""
        p1, p2 = f"{SRC}/{rel}.py", f"{SRC}/{rel}/__init__.py"
        if name == "":
            p1 = p2
        if os.path.isfile(p1):
            pk = name.rsplit(".", 1)[0] if "." in name else ""
            m = Module(name, p1, self, pk)
        elif os.path.isfile(p2):
            m = Module(name, p2, self, name)
        else:
            m = None
        self.mods[name] = m
        return m

    def resolve(self, qual):
        """module.func or module.Class.method -> FuncV"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is not None:
                rest = parts[i:]
                v = m.lookup(rest[0])
                if len(rest) == 1:
                    return v
                return self.class_attr(v, rest[1])
        raise KeyError(qual)

    def cls(self, name):
        for mn in ("chain", "analysis", "chainconsumer", "plotter", "truth", "plotting.config", "diagnostic", "comparisons",
                   "color_finder", "kde", "statistics", "base"):
            m = self.module(mn)
            if m is not None and isinstance(m.defs.get(name), ast.ClassDef):
                return m.lookup(name)
        raise KeyError(name)

    # ------------------------------------------------------------ classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                try:
                    v = c.module.lookup(b.id)
                except (KeyError, Unsupported):
                    continue
                if isinstance(v, ClassV):
                    out.append(v)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x.name not in [y.name for y in out]:
                    out.append(x)
        return out

    def base_names(self, c):
        out = []
        for x in self.mro(c):
            for b in x.node.bases:
                if isinstance(b, ast.Name):
                    out.append(b.id)
        return out

    def is_enum(self, c):
        return "Enum" in self.base_names(c)

    def class_attr(self, c, name):
        for x in self.mro(c):
            for st in x.node.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    kind = "method"
                    for d in st.decorator_list:
                        dn = ast.unparse(d)
                        if dn == "property" or dn.endswith("cached_property"):
                            kind = "property"
                        elif dn == "staticmethod":
                            kind = "static"
                        elif dn == "classmethod":
                            kind = "class"
                    return FuncV(st, x.module, f"{x.module.name}.{x.name}.{name}", x, None, kind)
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    if self.is_enum(c):
                        return EnumV(c.name, name)
                    return self.eval(st.value, Env(module=x.module))
        raise KeyError(name)

    def fields(self, c):
        """annotated fields: name -> (annotation ast, default ast, module)"""
        out = {}
        for x in reversed(self.mro(c)):
            for st in x.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    out[st.target.id] = (st.annotation, st.value, x.module)
                elif isinstance(st, ast.FunctionDef) and st.name == "__init__":
                    ann = {a.arg: a.annotation for a in st.args.args + st.args.kwonlyargs}
                    for s in ast.walk(st):
                        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                            out[s.target.attr] = (s.annotation, s.value, x.module)
                        elif isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    if isinstance(s.value, ast.Name) and ann.get(s.value.id) is not None:
                                        out.setdefault(t.attr, (ann[s.value.id], None, x.module))
                                    else:
                                        out.setdefault(t.attr, (None, s.value, x.module))
        return out

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.c:
                v = e.c[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"read of {name}: {v.why}")
                return v
            if e.module is not None and e.parent is None:
                break
            e = e.parent
        m = env.module
        if m is not None:
            try:
                return m.lookup(name)
            except KeyError:
                pass
        v = self.lib.builtin(name)
        if v is not None:
            return v
        raise PyRaise("NameError", name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, env)
            e = env
            while e is not None and "%yield" not in e.c:
                e = e.parent
            e.c["%yield"](v)
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Global(self, st, env):
        raise Unsupported("global")

    def s_Import(self, st, env):
        for a in st.names:
            env.set((a.asname or a.name).split(".")[0], ModV(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env.set(a.asname or a.name, env.module.do_import(st, a))

    def s_FunctionDef(self, st, env):
        q = (env.func.qual if env.func else "") + ".<locals>." + st.name
        env.set(st.name, FuncV(st, env.module, q, None, env))

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.eval(st.value, env)
            r = self.inplace(st.op, cur, v)
            env.set(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, env)
            self.setattr(o, t.attr, self.inplace(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            cur = self.getitem(o, ix)
            v = self.eval(st.value, env)
            self.setitem(o, ix, self.inplace(st.op, cur, v))
        else:
            raise Unsupported("augassign target")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            new = self.binop(op, cur, v)
            cur.c = ArrC(cur.shape, new.fn)
            return cur
        if isinstance(cur, ListV) and isinstance(op, ast.Add):
            self.lib.list_extend(cur, v)
            return cur
        if isinstance(cur, DictV) and isinstance(op, ast.BitOr):
            self.lib.dict_update(cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                raise Unsupported("starred assignment")
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, TupleV):
            if len(v.items) != n:
                raise PyRaise("ValueError", "unpack")
            return v.items
        if isinstance(v, ListV) and isinstance(v.c, Conc):
            if len(v.c.items) != n:
                raise PyRaise("ValueError", "unpack")
            return v.c.items
        if isinstance(v, Arr):
            if not self.decide(self.lib.eq(v.shape[0], n)):
                raise PyRaise("ValueError", "unpack")
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, ListV):
            if not self.decide(self.lib.eq(self.lib.length(v), n)):
                raise PyRaise("ValueError", "unpack")
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Opaque):
            return [Opaque(v.kind + f"[{i}]", v.args) for i in range(n)]
        raise Unsupported(f"unpack {type(v).__name__}")

    def s_Return(self, st, env):
        raise Ret(self.eval(st.value, env) if st.value is not None else None)

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise("AssertionError")

    def s_Raise(self, st, env):
        if st.exc is None:
            raise PyRaise("reraise")
        e = st.exc
        nm = e.func if isinstance(e, ast.Call) else e
        k = ast.unparse(nm).split(".")[-1]
        raise PyRaise(k)

    def s_Try(self, st, env):
        if st.finalbody:
            raise Unsupported("finally")
        try:
            self.exec_block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = [e.kind]
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x).split(".")[-1] for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split(".")[-1]]
                if any(self.exc_matches(e.kind, n) for n in names):
                    if h.name:
                        env.set(h.name, Opaque("exc:" + e.kind))
                    self.exec_block(h.body, env)
                    return
            raise
        self.exec_block(st.orelse, env)

    def exc_matches(self, kind, name):
        if kind == "ValidationError" and name in ("ValueError", "ValidationError"):
            return True  # pydantic's
        try:
            a, b = getattr(_b, kind), getattr(_b, name)
            return issubclass(a, b)
        except AttributeError:
            return kind == name or name in ("Exception", "BaseException")

    def s_Break(self, st, env):
        raise Brk()

    def s_Continue(self, st, env):
        raise Cont()

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.lib.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
            else:
                raise Unsupported("del")

    def s_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)

    def s_For(self, st, env):
        from .loops import exec_for

        exec_for(self, st, env)

    def s_While(self, st, env):
        from .loops import exec_while

        exec_while(self, st, env)

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        return ctx.decide(B(c) if not isinstance(c, bool) else c)

    def truth(self, v):
        """decided Python truth value"""
        t = self.truth_term(v)
        return self.decide(t)

    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_bool(v):
            return v
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        if is_int(v):
            return v != 0
        if is_real(v):
            return v != 0
        if is_z3(v) and v.sort() == Str:
            return v != strlit("")
        if isinstance(v, Opt):
            return And(Not(v.none), self.truth_term(v.val))
        if isinstance(v, Union):
            return self.truth_term(self.force(v))
        if isinstance(v, (ListV, DictV, SetV)):
            n = self.lib.length(v)
            return (n > 0) if not isinstance(n, int) else n > 0
        if isinstance(v, TupleV):
            return len(v.items) > 0
        if isinstance(v, Rope):
            if any(isinstance(p, str) for p in v.parts):
                return True
            if not v.parts:
                return False
            if all(isinstance(p, FmtPart) for p in v.parts):
                return True
            return rope_term(v) != strlit("")
        if isinstance(v, Obj):
            try:
                f = self.class_attr(v.cls, "__bool__")
            except KeyError:
                return True
            return self.truth_term(self.call(f.bind(v), [], {}))
        if isinstance(v, (FuncV, ClassV, EnumV)):
            return True
        if isinstance(v, Opaque):
            return self.lib.opaque_truth(v)
        if isinstance(v, Arr):
            raise Unsupported("truth value of an array")
        raise Unsupported(f"truth of {type(v).__name__}")

    def force(self, v):
        """resolve Opt / Union by deciding"""
        while True:
            if isinstance(v, Opt):
                if self.decide(v.none):
                    return None
                v = v.val
            elif isinstance(v, Union):
                alts = v.alts
                for c, x in alts[:-1]:
                    if self.decide(c):
                        v = x
                        break
                else:
                    v = alts[-1][1]
            else:
                return v

    # ------------------------------------------------------------ sub evaluation (merged)
    def sub(self, thunk, assume=()):
        """evaluate thunk exploring its own paths and merge the results; exceptions propagate by decision"""
        outs = ctx.explore(thunk, assume)
        return self.join(outs, assume)

    def join(self, outs, assume=()):
        oks, raises = [], []
        for o in outs:
            c = And(*o.conds)
            for f in o.facts:
                ctx.assume(Implies(And(*[B(a) for a in assume], c), f))
            (oks if o.kind == "ok" else raises).append((c, o.value))
        if raises:
            for c, e in raises:
                if self.decide(c):
                    raise PyRaise(e.kind, e.msg)
        if not oks:
            raise Infeasible()
        return merge(oks)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return v if v in (INF, -INF) else rat(v)
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return TupleV(self.eval_elts(e.elts, env))

    def e_List(self, e, env):
        return self.lib.make_list(self.eval_starred(e.elts, env))

    def e_Set(self, e, env):
        l = ListV(self.eval_elts(e.elts, env))
        return SetV(l.c)

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.lib.concrete_items(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def eval_starred(self, elts, env):
        """list of ('v', value) | ('*', iterable)"""
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.append(("*", self.eval(x.value, env)))
            else:
                out.append(("v", self.eval(x, env)))
        return out

    def e_Dict(self, e, env):
        items = []
        d = DictV(DConc([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(d, self.eval(v, env))
            else:
                self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_Lambda(self, e, env):
        f = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        ast.copy_location(f, e)
        return FuncV(f, env.module, "<lambda>", None, env)

    def e_IfExp(self, e, env):
        c = self.truth_term(self.eval(e.test, env))
        cb = conc_bool(c if isinstance(c, bool) else z3.simplify(c))
        if cb is None and ctx.spec:
            try:
                a = self.sub(lambda: self.eval(e.body, env), [c])
            except (PyRaise, Infeasible):
                # a branch that cannot be taken here
                if ctx.feasible(B(c)):
                    raise
                return self.eval(e.orelse, env)
            try:
                b = self.sub(lambda: self.eval(e.orelse, env), [Not(c)])
            except (PyRaise, Infeasible):
                if ctx.feasible(Not(B(c))):
                    raise
                return a
            return merge([(c, a), (Not(c), b)])
        if self.decide(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            if acc is not None and ctx.spec:
                g = acc if isand else Not(acc)
                cb = conc_bool(z3.simplify(B(g)))
                if cb is False:
                    return not isand
                if cb is None:
                    try:
                        v = self.sub(lambda: self.truth_term_sub(x, env), [g])
                    except Infeasible:
                        v = isand
                else:
                    v = self.eval(x, env)
            else:
                v = self.eval(x, env)
            if i == len(e.values) - 1 and acc is None:
                return v
            if ctx.spec:
                t = self.truth_term(v)
                if acc is None:
                    acc = B(t)
                else:
                    acc = And(acc, B(t)) if isand else Or(acc, B(t))
                continue
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return acc

    def truth_term_sub(self, x, env):
        return self.truth_term(self.eval(x, env))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else Not(t)
        return self.unop(e.op, v)

    def unop(self, op, v):
        v = self.force(v)
        if isinstance(op, ast.USub):
            if isinstance(v, Arr):
                return self.lib.amap(lambda x: self.unop(op, x), v)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if is_z3(v):
                return -v if not is_real(v) else rd.arith(-v)
        if isinstance(op, ast.Invert):
            if isinstance(v, Arr):
                return self.lib.amap(lambda x: Not(x), v)
            if is_bool(v):
                return Not(v)
        if isinstance(op, ast.UAdd):
            return v
        raise Unsupported(f"unary {type(op).__name__} on {type(v).__name__}")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            t = self.lib.compare(op, left, right)
            if res is None:
                res = t
            else:
                if isinstance(t, Arr) or isinstance(res, Arr):
                    raise Unsupported("chained array comparison")
                res = And(B(res), B(t)) if not (isinstance(res, bool) and isinstance(t, bool)) else (res and t)
            left = right
        return res

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.force(self.eval(x, env))
            return ("slice", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return TupleV([self.eval_index(x, env) for x in s.elts])
        return self.eval(s, env)

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        return self.getattr(o, e.attr)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = "".join(y.value if isinstance(y, ast.Constant) else "?" for y in v.format_spec.values)
                parts.append(self.lib.fmt(x, spec))
        return self.lib.mkrope(parts)

    def e_ListComp(self, e, env):
        from .loops import comprehension

        return ListV(comprehension(self, e.elt, e.generators, env))

    def e_GeneratorExp(self, e, env):
        from .loops import comprehension

        return ListV(comprehension(self, e.elt, e.generators, env), "gen")

    def e_SetComp(self, e, env):
        from .loops import comprehension

        return SetV(comprehension(self, e.elt, e.generators, env))

    def e_DictComp(self, e, env):
        from .loops import dictcomp

        return dictcomp(self, e, env)

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            s = env
            while s is not None and s.func is None:
                s = s.parent
            return ("super", s.func.cls, s.c[s.func.node.args.args[0].arg])
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.lib.concrete_items(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, env))
                self.lib.merge_kwargs(kwargs, d)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs, site=e)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, site=None):
        f = self.force(f) if isinstance(f, (Opt, Union)) else f
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.lib.method(f.obj, f.name, args, kwargs)
        if isinstance(f, ExtFn):
            return self.lib.extcall(f.path, args, kwargs)
        if isinstance(f, ClassV):
            return self.lib.construct(f, args, kwargs)
        if isinstance(f, Opaque):
            return self.lib.opaque_call(f, args, kwargs)
        if callable(f) and not isinstance(f, (Mut,)):
            return f(*args, **kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if f.kind == "bound" or (f.selfv is not None):
            args = [f.selfv] + args
        d = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments")
            d[a.vararg.arg] = TupleV(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = TupleV([])
        for n, v in zip(names, args):
            d[n] = v
        extra = {}
        allk = names + [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in allk:
                if k in d:
                    raise PyRaise("TypeError", "duplicate argument")
                d[k] = v
            else:
                extra[k] = v
        denv = env.parent if f.closure is not None and env.parent else Env(module=f.module)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names:
            if n not in d:
                if n not in defaults:
                    raise PyRaise("TypeError", f"missing argument {n}")
                d[n] = self.eval(defaults[n], denv)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in d:
                if dv is None:
                    raise PyRaise("TypeError", f"missing argument {x.arg}")
                d[x.arg] = self.eval(dv, denv)
        if a.kwarg is not None:
            rest = extra.pop("**", None)
            dd = DictV(DConc([(k, v) for k, v in extra.items()]))
            if rest is not None:
                self.lib.dict_update(dd, rest)
            d[a.kwarg.arg] = dd
        elif extra:
            if "**" in extra:
                raise Unsupported("symbolic keyword arguments")
            raise PyRaise("TypeError", f"unexpected arguments {list(extra)}")
        return d

    def call_func(self, f, args, kwargs):
        env = Env(parent=f.closure, module=f.module, func=f)
        d = self.bind_args(f, args, kwargs, env)
        con = self.registry.get(f.qual)
        if con is not None and f.qual not in self.inline_only:
            return con.apply(self, f, d)
        return self.inline(f, d, env)

    opaque = {}
    loopinv = {}

    def opaque_spec(self, f, d):
        """a specification function kept closed: an uninterpreted function of its (unmodified) arguments"""
        from .loops import value_terms

        ts, skel = [], []
        for a in f.node.args.args:
            v = d[a.arg]
            if v is None or isinstance(v, (bool, str)):
                skel.append(v)
                continue
            if isinstance(v, Obj):
                if v.sym is None or not self.pristine(v):
                    raise Unsupported("opaque specification function of a modified object")
                t = [v.sym]
            else:
                t = value_terms(v)
            if t is None:
                raise Unsupported("argument of an opaque specification function")
            skel.append((type(v).__name__, len(t)))
            ts.extend(t)
        sort = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[self.opaque[f.qual.split(".")[-1]]]
        fn = z3.Function(f"spec.{f.module.name}.{f.qual}{skel!r}", *[t.sort() for t in ts], sort)
        return fn(*ts)

    def inline(self, f, d, env=None):
        if ctx.spec and self.opaque and f.node.name in self.opaque if isinstance(f.node, ast.FunctionDef) else False:
            return self.opaque_spec(f, d)
        if env is None:
            env = Env(parent=f.closure, module=f.module, func=f)
        env.c = dict(d)
        if self.depth > 60:
            raise Unsupported("call depth")
        if not f.qual.startswith("<") and f.module is not None and f.module.name in self.mods:
            ctx.funcs.add(f.qual)
        self.depth += 1
        try:
            if self.is_generator(f.node):
                return self.lib.make_generator(f, env)
            try:
                self.exec_block(f.node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def is_generator(self, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    # ------------------------------------------------------------ attributes / items
    def getattr(self, o, name):
        if isinstance(o, (Opt, Union)):
            o = self.force(o)
        if isinstance(o, tuple) and o and o[0] == "super":
            for b in self.mro(o[1])[1:]:
                try:
                    return self.class_attr(b, name).bind(o[2])
                except KeyError:
                    continue
            return Builtin("super." + name, lambda *a, **k: self.lib.super_call(o[2], name, a, k))
        if isinstance(o, Obj):
            return self.obj_attr(o, name)
        if isinstance(o, ClassV):
            try:
                v = self.class_attr(o, name)
            except KeyError:
                v = self.lib.class_builtin(o, name)
            if isinstance(v, FuncV) and v.kind == "class":
                return v.bind(o)
            return v
        if isinstance(o, Module):
            return o.lookup(name)
        if isinstance(o, ModV):
            return self.lib.modattr(o, name)
        if o is None:
            raise PyRaise("AttributeError", name)
        return self.lib.attr(o, name)

    cached_props = ("Chain", "Truth")

    @staticmethod
    def pristine(o):
        """no field of the symbolic object has been written"""
        p = getattr(o, "pristine", None)
        if p is None:
            return not o.c
        return o.c is p[0] and all(c.c is v for c, v in p[1])

    def cached_property(self, o, f):
        """value of a property, computed once for an arbitrary object of the class and instantiated"""
        key = f.qual
        tab = ctx.intern_tab.setdefault("@props", {})
        if key not in tab:
            tab[key] = None
            r = z3.Const(f"@self_{o.cls.name}", Ref)
            ctx.all_generics[r.get_id()] = r
            pc, gens, goal, spec = ctx.pc, ctx.generics, ctx.goal, ctx.spec
            ctx.pc, ctx.generics, ctx.goal, ctx.spec = [], [r], False, 0
            try:
                me = Obj(o.cls, None, r)
                outs = ctx.explore(lambda: self.call_func(FuncV(f.node, f.module, f.qual, f.cls, None, "bound", me), [], {}))
                if outs and all(x.kind == "ok" for x in outs):
                    facts = [Implies(And(*x.conds), y) for x in outs for y in x.facts]
                    tab[key] = (r, merge([(And(*x.conds), x.value) for x in outs]), facts)
            except (Unsupported, PyRaise):
                pass
            finally:
                ctx.pc, ctx.generics, ctx.goal, ctx.spec = pc, gens, goal, spec
        e = tab[key]
        if e is None:
            return None
        r, v, facts = e
        pairs = [(r, o.sym)]
        for y in facts:
            ctx.assume(z3.substitute(y, *pairs))
        return (subst_value(v, pairs),)

    def obj_attr(self, o, name):
        if name in o.c:
            return o.c[name]
        if name == "__class__":
            return o.cls
        try:
            v = self.class_attr(o.cls, name)
        except KeyError:
            v = None
        if isinstance(v, FuncV):
            if v.kind == "property":
                if o.sym is not None and o.cls.name in self.cached_props and self.pristine(o):
                    r = self.cached_property(o, v)
                    if r is not None:
                        return r[0]
                return self.call_func(FuncV(v.node, v.module, v.qual, v.cls, None, "bound", o), [], {})
            if v.kind == "static":
                return v
            if v.kind == "class":
                return v.bind(o.cls)
            return v.bind(o)
        fl = self.fields(o.cls)
        if name in fl:
            if o.sym is not None:
                return self.lib.sym_field(o, name)
        if v is not None:
            return v
        b = self.lib.obj_builtin(o, name)
        if b is not None:
            return b
        raise PyRaise("AttributeError", name)

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Obj):
            if o.owned not in ("made", "param") and o.origin is None:
                raise Unsupported(f"assignment to an attribute of a {o.cls.name} reached through other objects")
            d = dict(o.c)
            d[name] = v
            o.c = d
            return
        if isinstance(o, Opaque):
            self.lib.opaque_setattr(o, name, v)
            return
        raise Unsupported(f"setattr on {type(o).__name__}")

    def getitem(self, o, ix):
        o = self.force(o) if isinstance(o, (Opt, Union)) else o
        return self.lib.getitem(o, ix)

    def setitem(self, o, ix, v):
        o = self.force(o) if isinstance(o, (Opt, Union)) else o
        return self.lib.setitem(o, ix, v)
