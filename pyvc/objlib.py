"""Objects, classes (incl. pydantic construction), external calls and methods of builtin values."""
from __future__ import annotations

import ast

import z3

from . import reduce as rd
from .core import *  # noqa
from .interp import BoundV, Builtin, ClassV, ExtFn, FuncV, ModV, Module, SymIter, INF
from .loops import DPts, Flat, I_, toiter, value_terms
from .pdlib import DF, ILoc, RowV, filter_content, sym_df

PYD = {"BaseModel"}


class KeyedVal:
    """getattr(o, key) for a symbolic key over the fields of o"""

    def __init__(self, key, table, root=None):
        self.key, self.table, self.root = key, table, root

    def subst(self, pairs):
        return KeyedVal(subst_value(self.key, pairs), {k: subst_value(v, pairs) for k, v in self.table.items()}, self.root)


class Keyed(dict):
    base = None


class Pending(dict):
    """content of an object a loop writes by symbolic field names: unknown at the start of an iteration, so it may not be read"""

    def __init__(self, write=None):
        super().__init__()
        self.write = write

    def stop(self, *a):
        raise Unsupported("reading an object whose fields a loop sets by name")

    __contains__ = __getitem__ = __iter__ = get = items = keys = values = stop


class Types:
    """type expressions: tuples built from annotations"""

    def __init__(self, I):
        self.I = I

    def parse(self, text, module=None):
        return self.conv(ast.parse(text, mode="eval").body, module)

    def conv(self, a, module):
        if a is None:
            return ("any",)
        if isinstance(a, ast.Constant):
            if a.value is None:
                return ("none",)
            if isinstance(a.value, str):
                return self.parse(a.value, module)
            return ("any",)
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.conv(a.left, module), self.conv(a.right, module)
            alts = (list(l[1]) if l[0] == "union" else [l]) + (list(r[1]) if r[0] == "union" else [r])
            if ("none",) in alts:
                rest = [x for x in alts if x != ("none",)]
                t = rest[0] if len(rest) == 1 else ("union", tuple(rest))
                return ("opt", t)
            out = []
            for x in alts:
                if x[0] == "opt":
                    return ("opt", ("union", tuple([y for y in alts if y[0] != "opt"] + [x[1]])))
                out.append(x)
            return ("union", tuple(out))
        if isinstance(a, ast.Name):
            m = {"str": ("str",), "float": ("real",), "int": ("int",), "bool": ("bool",), "Any": ("any",), "list": ("list", ("any",)),
                 "dict": ("dict", ("any",), ("any",)), "real": ("real",), "df": ("df",), "object": ("any",)}
            if a.id in m:
                return m[a.id]
            if module is not None:
                try:
                    v = module.lookup(a.id)
                except (KeyError, Unsupported):
                    v = None
                if isinstance(v, ClassV):
                    return ("enum", v.name) if self.I.is_enum(v) else ("obj", v.name)
                d = module.defs.get(a.id)
                if isinstance(d, ast.AnnAssign):
                    return self.conv(d.value, module)
                if isinstance(d, tuple) and isinstance(d[0], ast.ImportFrom):
                    st = d[0]
                    base = module.package
                    for _ in range(max(0, st.level - 1)):
                        base = base.rsplit(".", 1)[0] if "." in base else ""
                    mn = ".".join(x for x in [base, st.module or ""] if x) if st.level else st.module
                    m2 = self.I.module(mn) if st.level else None
                    if m2 is not None and isinstance(m2.defs.get(d[1].name), ast.AnnAssign):
                        return self.conv(m2.defs[d[1].name].value, m2)
            try:
                c = self.I.cls(a.id)
                return ("enum", c.name) if self.I.is_enum(c) else ("obj", c.name)
            except KeyError:
                return ("opaque", a.id)
        if isinstance(a, ast.Attribute):
            s = ast.unparse(a)
            if s.endswith("DataFrame"):
                return ("df",)
            if s.endswith("ndarray"):
                return ("arr", None)
            if s.endswith("Series"):
                return ("arr", 1)
            return ("opaque", s)
        if isinstance(a, ast.Subscript):
            h = ast.unparse(a.value)
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h in ("list", "Sequence", "Iterable", "set", "frozenset"):
                return ("set" if h in ("set", "frozenset") else "list", self.conv(args[0], module))
            if h in ("dict", "Mapping"):
                return ("dict", self.conv(args[0], module), self.conv(args[1], module))
            if h in ("tuple",):
                return ("tuple", tuple(self.conv(x, module) for x in args))
            if h in ("opt", "Optional"):
                return ("opt", self.conv(args[0], module))
            if h.endswith("Series"):
                return ("arr", 1)
            if h in ("arr1", "arr2"):
                return ("arr", int(h[-1]), self.conv(args[0], module))
            if h == "Literal":
                return ("lit", tuple(x.value for x in args))
            return ("opaque", h)
        return ("any",)


class Objs:
    def __init__(self, lib):
        self.lib = lib
        self.I = lib.I
        self.types = Types(lib.I)
        self.trace = None
        self.invariants = {}

    # ------------------------------------------------------------ symbolic values
    def mk(self, t, name, args, module=None):
        """symbolic value of type t built from uninterpreted functions `name` of args"""
        ss = [a.sort() for a in args]

        def fn(nm, rng, *extra):
            f = z3.Function(nm, *ss, *extra, rng) if (ss or extra) else None
            return (lambda *x: f(*args, *x)) if f is not None else (lambda: z3.Const(nm, rng))

        k = t[0]
        if k == "real":
            return fn(name, Real)()
        if k == "int":
            return fn(name, Int)()
        if k == "bool":
            return fn(name, Bool)()
        if k == "str":
            return fn(name, Str)()
        if k == "none":
            return None
        if k == "const":
            return t[1]
        if k == "opt":
            return Opt(fn(name + "?none", Bool)(), self.mk(t[1], name, args, module))
        if k == "lit":
            code = fn(name + "?lit", Int)()
            return self.choice(code, list(t[1]))
        if k == "enum":
            c = self.I.cls(t[1])
            names = [x.targets[0].id for x in c.node.body if isinstance(x, ast.Assign)]
            code = fn(name + "?enum", Int)()
            return self.choice(code, [EnumV(c.name, n) for n in names])
        if k == "union":
            code = fn(name + "?alt", Int)()
            return self.choice(code, [self.mk(x, f"{name}?{j}", args, module) for j, x in enumerate(t[1])])
        if k == "obj":
            return self.sym_obj(self.I.cls(t[1]), name, args)
        if k == "df":
            return self.mkdf(name, args)
        if k == "list":
            n = fn(name + ".len", Int)()
            vs = [z3.Const(f"@l{i}", s) for i, s in enumerate(ss)]
            d = z3.Function(name + ".len", *ss, Int)(*vs) if ss else n
            axsym(name + ".len", [z3.ForAll(vs, d >= 0, patterns=[d]) if vs else d >= 0])
            return ListV(Fam(n, lambda i: [(True, self.mk(t[1], name + ".it", list(args) + [I(i)], module))], True, ("sym", name)))
        if k == "set":
            f = fn(name + ".in", Bool, Str)
            # the elements: distinct, and exactly what membership says
            vs = [z3.Const(f"@l{i}", s) for i, s in enumerate(ss)]
            j, x = z3.Int("@lj"), z3.Const("@lx", Str)
            d = z3.Function(name + ".len", *ss, Int)(*vs)
            it = z3.Function(name + ".it", *ss, Int, Str)
            ix = z3.Function(name + ".ix", *ss, Str, Int)
            has = z3.Function(name + ".in", *ss, Str, Bool)(*vs, x)
            el = it(*vs, j)
            axsym(name + ".it", [
                z3.ForAll(vs + [j], z3.Implies(z3.And(0 <= j, j < d), z3.And(z3.Function(name + ".in", *ss, Str, Bool)(*vs, el), ix(*vs, el) == j)), patterns=[el]),
                z3.ForAll(vs + [x], z3.Implies(has, z3.And(0 <= ix(*vs, x), ix(*vs, x) < d, it(*vs, ix(*vs, x)) == x)), patterns=[has])])
            axsym(name + ".len", [z3.ForAll(vs, d >= 0, patterns=[d]) if vs else d >= 0])
            fam = Fam(fn(name + ".len", Int)(), lambda i: [(True, fn(name + ".it", Str, Int)(I(i)))], True, ("sym", name))
            fam.has = lambda x: f(S(x))
            return SetV(fam)
        if k == "dict":
            n = fn(name + ".len", Int)()
            key = fn(name + ".key", Str, Int)
            kix = fn(name + ".kix", Int, Str)
            vs = [z3.Const(f"@l{i}", s) for i, s in enumerate(ss)]
            j = z3.Int("@lj")
            d = z3.Function(name + ".len", *ss, Int)(*vs) if ss else n
            axsym(name + ".len", [z3.ForAll(vs, d >= 0, patterns=[d]) if vs else d >= 0])
            kd = z3.Function(name + ".key", *ss, Int, Str)(*vs, j)
            kx = z3.Function(name + ".kix", *ss, Str, Int)(*vs, kd)
            axsym(name + ".key", [z3.ForAll(vs + [j], z3.Implies(z3.And(0 <= j, j < d), kx == j), patterns=[kd])])
            df = DFam(n, lambda i: key(I(i)), lambda i: self.mk(t[2], name + ".val", list(args) + [I(i)], module),
                      lambda i: z3.BoolVal(True), ("sym", name))
            df.kix = kix
            return DictV(df)
        if k == "arr":
            nd = t[1] or 1
            el = t[2][0] if len(t) > 2 else "real"
            sort = {"real": Real, "int": Int, "bool": Bool, "str": Str}[el]
            dims = []
            for q in range(nd):
                n = fn(f"{name}.shape{q}", Int)()
                vs = [z3.Const(f"@l{i}", s) for i, s in enumerate(ss)]
                d = z3.Function(f"{name}.shape{q}", *ss, Int)(*vs) if ss else n
                axsym(f"{name}.shape{q}", [z3.ForAll(vs, d >= 0, patterns=[d]) if vs else d >= 0])
                dims.append(n)
            e = fn(name + ".el", sort, *([Int] * nd))
            return Arr(dims, lambda *i: e(*[I(x) for x in i]))
        if k == "tuple":
            return TupleV([self.mk(x, f"{name}.{j}", args, module) for j, x in enumerate(t[1])])
        if k in ("opaque", "any"):
            o = Opaque(t[1] if k == "opaque" else "any", tuple(args) + (fn(name + "!ref", Ref)(),))
            return o
        raise Unsupported(f"symbolic value of type {t}")

    def choice(self, code, vals):
        if len(vals) == 1:
            return vals[0]
        alts = []
        for j, v in enumerate(vals[:-1]):
            alts.append((code == j, v))
        alts.append((And(*[code != j for j in range(len(vals) - 1)]), vals[-1]))
        return merge(alts)

    def mkdf(self, name, args, finite=True):
        d = sym_df(name, args, finite)
        d.c.cols.has = d.c.has
        return d

    def sym_obj(self, cls, name, args):
        ss = [a.sort() for a in args]
        ref = z3.Function(name + "!ref", *ss, Ref)(*args) if ss else z3.Const(name + "!ref", Ref)
        return Obj(cls, None, ref)

    def sym_field(self, o, name):
        ann, dflt, mod = self.I.fields(o.cls)[name]
        if isinstance(dflt, ast.Dict) and dflt.keys and f"{o.cls.name}.{name}" not in self.field_types:
            # a table the constructor builds from its own object
            from .interp import Env as E

            return self.I.eval(dflt, (lambda e: (e.c.update(self=o), e)[1])(E(module=mod)))
        if isinstance(dflt, ast.Call) and isinstance(dflt.func, ast.Attribute) and isinstance(dflt.func.value, ast.Name) and dflt.func.value.id == "logging":
            return self.I.eval(dflt, self.module_env(mod))
        t = self.field_type(o.cls, name, ann, dflt, mod)
        cn = self.field_owner(o.cls)
        v = self.mk(t, f"{cn}.{name}", [o.sym], mod)
        if isinstance(v, DF):
            v.frozen = True
        self.need_invariant(o.cls, cn, name, v)
        return v

    def module_env(self, mod):
        from .interp import Env as E

        return E(module=mod)

    def field_owner(self, cls):
        return cls.name

    def field_type(self, cls, name, ann, dflt, mod):
        over = self.field_types.get(f"{cls.name}.{name}")
        if over is not None:
            return self.types.parse(over, mod)
        if ann is None:
            if isinstance(dflt, ast.Call) and isinstance(dflt.func, ast.Name):
                return ("obj", dflt.func.id)
            raise Unsupported(f"type of {cls.name}.{name}")
        return self.types.conv(ann, mod)

    field_types = {}

    def need_invariant(self, cls, cn, name, v):
        """attach the class invariant axioms to the declarations of the field"""
        inv = self.invariants.get(cn)
        if inv is None:
            return
        for nm in decl_names(v):
            s = ctx.symbols.get(nm)
            if s is None:
                s = axsym(nm, [])
            if not getattr(s, "_inv", False):
                s._inv = True
                base = s.axioms
                s.axioms = lambda base=base, inv=inv: list(base()) + inv()

    # ------------------------------------------------------------ attributes
    def attr(self, o, name):
        L = self.lib
        if isinstance(o, (DF, RowV)):
            r = L.pd.attr(o, name)
            if r is not NotImplemented:
                return r
            return BoundV(o, name)
        if isinstance(o, Arr):
            if name == "shape":
                return TupleV(o.shape)
            if name == "ndim":
                return len(o.shape)
            if name == "size":
                n = 1
                for s in o.shape:
                    n = L.muli(n, s)
                return n
            if name == "T":
                if len(o.shape) == 2:
                    fn = o.fn
                    return Arr((o.shape[1], o.shape[0]), lambda i, j: fn(j, i))
                return o
            if name == "values":
                return Arr(o.shape, o.fn)
            if name in ("iloc", "loc"):
                if name == "loc" and o.series and o.series.get("label"):
                    raise Unsupported("label selection on a series")
                return ILoc(o, "iloc")
            if name == "empty":
                return I_(o.shape[0]) <= 0
            if name == "index":
                lab = (o.series or {}).get("label")
                return Arr(o.shape, lab if lab else (lambda i: I(i)))
            if name == "dtype":
                v = o.fn(*[z3.Int(f"dt{j}") for j in range(len(o.shape))])
                return Opaque("dtype:" + ("bool" if is_bool(v) else "int" if is_int(v) else "float" if is_num(v) else "str"))
            return BoundV(o, name)
        if isinstance(o, EnumV):
            if name == "name":
                return o.name
            if name in ("value", "_value_"):
                c = self.I.cls(o.cls)
                for st in c.node.body:
                    if isinstance(st, ast.Assign) and st.targets[0].id == o.name:
                        return self.I.eval(st.value, Env(module=c.module))
            raise PyRaise("AttributeError", name)
        if isinstance(o, ExtFn):
            return ExtFn(o.path + "." + name)
        if isinstance(o, ListV) and o.kind == "index" and name == "values":
            return o
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            return self.opaque_attr(o, name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.node.name
            raise Unsupported(f"attribute {name} of function")
        if isinstance(o, (ListV, DictV, SetV, str, Rope, TupleV, Builtin)) or is_strv(o):
            return BoundV(o, name)
        if is_num(o) or is_bool(o):
            if name in ("real",):
                return o
            return BoundV(o, name)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def opaque_attr(self, o, name):
        return BoundV(o, name)

    def modattr(self, o, name):
        p = f"{o.path}.{name}"
        if p in ("numpy.pi",):
            return z3.Real("pi")
        if p in ("numpy.inf",):
            return INF
        if p == "numpy.newaxis":
            return None
        if p in ("numpy.linalg", "numpy.random", "matplotlib.pyplot", "scipy.stats", "scipy.ndimage"):
            return ModV(p)
        return ExtFn(p)

    # ------------------------------------------------------------ external calls
    def extcall(self, path, args, kwargs):
        L = self.lib
        if path.startswith("numpy.random"):
            return Opaque(path, tuple(args))
        if path.startswith("numpy."):
            if path in ("numpy.float64", "numpy.float32", "numpy.float_"):
                return L.b_float(*args)
            if path in ("numpy.int64", "numpy.int_"):
                return L.b_int(*args)
            return L.np.call(path[6:], list(args), kwargs)
        if path.startswith("scipy."):
            return L.np.sp(path[6:], list(args), kwargs)
        if path == "pandas.DataFrame":
            return L.pd.frame(*args, **kwargs)
        if path == "pandas.DataFrame.from_dict":
            return L.pd.from_dict(*args, **kwargs)
        if path == "pandas.Series":
            return L.np.f_array(args[0])
        root = path.split(".")[0]
        if root in ("logging", "warnings"):
            return Opaque(path)
        if root == "builtins":
            nm = path[9:]
            if nm == "object.__setattr__":
                L.b_setattr(*args)
                return None
            return Opaque("exc:" + nm, tuple(args))
        if path.startswith("statsmodels"):
            a = L.np.asarray(args[0])
            from .nplib import libfn

            rest = list(args[1:]) + [kwargs[k] for k in sorted(kwargs)]
            (f, s), sym = libfn("yule_walker", [a] + rest, [((Int,), Real), ((), Real)])
            order = rest[0] if rest else 1
            ctx.trusted.add("statsmodels yule_walker is a function of (array, order)")
            return TupleV([Arr((order,), lambda i: f(I(i))), s])
        if path == "pydantic.Field":
            if "default_factory" in kwargs:
                return self.I.call(kwargs["default_factory"], [], {})
            return kwargs.get("default", args[0] if args else Ellipsis)
        if path in ("pydantic.ConfigDict",):
            return Opaque(path)
        if path.startswith("copy."):
            if path == "copy.copy" or path == "copy.deepcopy":
                return self.copy(args[0])
        h = self.ext_hooks.get(path)
        if h is not None:
            return h(*args, **kwargs)
        if root in ("matplotlib",):
            return self.event(Opaque(path), "()", args, kwargs)
        raise Unsupported(f"external call {path}")

    ext_hooks = {}

    def copy(self, v):
        if isinstance(v, Obj):
            o = Obj(v.cls, v.c, v.sym, owned="made")
            return o
        if isinstance(v, ListV):
            return ListV(v.c, v.kind)
        if isinstance(v, DictV):
            return DictV(v.c)
        raise Unsupported("copy")

    # ------------------------------------------------------------ construction
    def is_pydantic(self, c):
        return any(b in PYD for b in self.I.base_names(c))

    def construct(self, cls, args, kwargs):
        I_ = self.I
        if I_.is_enum(cls):
            v = args[0]
            alts = []
            for st in cls.node.body:
                if isinstance(st, ast.Assign):
                    alts.append((st.targets[0].id, I_.eval(st.value, Env(module=cls.module))))
            for n, x in alts:
                if isinstance(v, EnumV) and v.name == n:
                    return v
                if self.I.decide(B(self.lib.eq(v, x))):
                    return EnumV(cls.name, n)
            raise PyRaise("ValueError")
        con = I_.registry.get(f"{cls.module.name}.{cls.name}")
        if con is not None and f"{cls.module.name}.{cls.name}" not in I_.inline_only:
            return con.apply_construct(I_, cls, args, kwargs)
        o = Obj(cls, owned="made")
        try:
            init = I_.class_attr(cls, "__init__")
        except KeyError:
            init = None
        if init is None and self.is_namedtuple(cls):
            fl = list(I_.fields(cls).items())
            vals = dict(zip([n for n, _ in fl], args))
            vals.update(kwargs)
            d = {}
            for n, (ann, dflt, mod) in fl:
                d[n] = vals[n] if n in vals else I_.eval(dflt, Env(module=mod))
            o.c = d
            return o
        if init is not None:
            I_.call(init.bind(o), args, kwargs)
        elif self.is_pydantic(cls):
            self.pydantic_init(o, args, kwargs)
        elif args or kwargs:
            raise PyRaise("TypeError")
        return o

    def is_namedtuple(self, cls):
        return any(b in ("NamedTuple",) for b in self.I.base_names(cls)) or any(
            "dataclass" in ast.unparse(d) for x in self.I.mro(cls) for d in x.node.decorator_list)

    def super_call(self, o, name, a, k):
        if name == "__init__":
            if self.is_pydantic(o.cls):
                self.pydantic_init(o, a, k)
                return None
            return None
        if name in ("model_dump", "model_copy"):
            return self.obj_builtin(o, name).fn(*a, **k)
        raise Unsupported(f"super().{name}")

    def field_validators(self, cls):
        out = []
        for x in reversed(self.I.mro(cls)):
            for st in x.node.body:
                if isinstance(st, ast.FunctionDef):
                    for d in st.decorator_list:
                        if isinstance(d, ast.Call) and ast.unparse(d.func) in ("field_validator", "validator"):
                            mode = "after"
                            for kw in d.keywords:
                                if kw.arg == "mode":
                                    mode = kw.value.value
                            out.append(([a.value for a in d.args], mode, st.name))
        return out

    def model_validators(self, cls):
        out = []
        for x in reversed(self.I.mro(cls)):
            for st in x.node.body:
                if isinstance(st, ast.FunctionDef):
                    for d in st.decorator_list:
                        if isinstance(d, ast.Call) and ast.unparse(d.func) == "model_validator":
                            mode = [kw.value.value for kw in d.keywords if kw.arg == "mode"]
                            if mode and mode[0] != "after":
                                raise Unsupported("model validator mode")
                            if st.name not in out:
                                out.append(st.name)
        return out

    def pydantic_init(self, o, args, kwargs):
        """the model's constructor: a validator's AssertionError or ValueError becomes a ValidationError (a ValueError)"""
        try:
            return self.pydantic_init1(o, args, kwargs)
        except PyRaise as e:
            if e.kind == "AssertionError" or self.I.exc_matches(e.kind, "ValueError"):
                raise PyRaise("ValidationError") from e
            raise

    def pydantic_init1(self, o, args, kwargs):
        I_, L = self.I, self.lib
        if args:
            raise PyRaise("TypeError")
        if "**" in kwargs:
            raise Unsupported("symbolic keyword arguments to a model")
        fl = I_.fields(o.cls)
        fvs = self.field_validators(o.cls)
        vals = {}
        for name, (ann, dflt, mod) in fl.items():
            if name.startswith("_") or name == "model_config":
                continue
            t = self.types.conv(ann, mod)
            if name in kwargs:
                v = kwargs[name]
                for flds, mode, fn in fvs:
                    if name in flds and mode == "before":
                        v = I_.call(self.bind_cls(o.cls, fn), [v], {})
                v = self.coerce(v, t, mod)
                self.constraints(v, dflt, f"{o.cls.name}.{name}")
                for flds, mode, fn in fvs:
                    if (name in flds or "*" in flds) and mode == "after":
                        v = I_.call(self.bind_cls(o.cls, fn), [v], {})
                vals[name] = v
            else:
                v = I_.eval(dflt, Env(module=mod)) if dflt is not None else Ellipsis
                if v is Ellipsis:
                    raise PyRaise("ValidationError", name)
                vals[name] = v
        o.c = {**o.c, **vals}
        for m in self.model_validators(o.cls):
            r = I_.call(I_.class_attr(o.cls, m).bind(o), [], {})
            if r is not o:
                raise Unsupported("model validator returning another object")
        for x in reversed(I_.mro(o.cls)):
            for st in x.node.body:
                if isinstance(st, ast.AnnAssign) and st.target.id.startswith("_") and st.value is not None and st.target.id not in o.c:
                    o.c = {**o.c, st.target.id: I_.eval(st.value, Env(module=x.module))}

    def bind_cls(self, cls, fn):
        f = self.I.class_attr(cls, fn)
        return f.bind(cls)

    def same_field(self, v, qual):
        """v is the value of the same field of an existing model: its bounds were checked when that model was made"""
        if isinstance(v, Opt):
            v = v.val
        if isinstance(v, Union):
            return bool(v.alts) and all(self.same_field(x, qual) for _, x in v.alts)
        if not (is_z3(v) and is_num(v)):
            return False
        ok, todo = False, [v]
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if not (t.num_args() and (nm == qual or nm.startswith(qual + "?"))):
                    return False
                ok = True
            else:
                todo.extend(t.children())
        return ok

    def constraints(self, v, dflt, qual=""):
        if not (isinstance(dflt, ast.Call) and ast.unparse(dflt.func) == "Field"):
            return
        if self.same_field(v, qual):
            return
        for kw in dflt.keywords:
            if kw.arg in ("ge", "gt", "le", "lt"):
                b = ast.literal_eval(kw.value)
                x = self.I.force(v)
                if x is None:
                    continue
                if not is_num(x):
                    raise PyRaise("ValidationError")
                op = {"ge": ">=", "gt": ">", "le": "<=", "lt": "<"}[kw.arg]
                if not self.I.decide(B(self.lib.order(op, x, b))):
                    raise PyRaise("ValidationError")

    def coerce(self, v, t, mod):
        """pydantic's lax coercion of the values used here; raises ValidationError when clearly of another type"""
        k = t[0]
        L = self.lib
        if isinstance(v, Opt):
            if k == "opt":
                return Opt(v.none, self.coerce(v.val, t[1], mod)) if not is_z3(v.val) else v
            x = self.I.force(v)
            return self.coerce(x, t, mod)
        if k == "opt":
            return None if v is None else self.coerce(v, t[1], mod)
        if k in ("any", "opaque", "union", "arr", "lit", "tuple", "set"):
            return v
        if isinstance(v, Union):
            if k in ("enum",):
                return v
            v = self.I.force(v)
        if k == "real":
            if isinstance(v, float) and v in (INF, -INF):
                return v
            if is_num(v):
                return R(v)
            if is_bool(v):
                return R(v)
            raise PyRaise("ValidationError")
        if k == "int":
            if is_int(v):
                return v
            if is_bool(v):
                return I(v)
            if is_real(v):
                c = num_const(v)
                if c is not None and c.denominator == 1:
                    return int(c)
                f = z3.ToInt(v)
                if not self.I.decide(z3.ToReal(f) == v):
                    raise PyRaise("ValidationError")
                return f
            raise PyRaise("ValidationError")
        if k == "bool":
            if is_bool(v):
                return v
            raise PyRaise("ValidationError")
        if k == "str":
            if is_strv(v):
                return v
            if isinstance(v, EnumV):
                return v
            raise PyRaise("ValidationError")
        if k == "enum":
            if isinstance(v, EnumV):
                return v
            return self.construct(self.I.cls(t[1]), [v], {})
        if k == "list":
            if isinstance(v, (ListV,)):
                return ListV(v.c)
            if isinstance(v, (TupleV,)):
                return ListV(list(v.items))
            raise PyRaise("ValidationError")
        if k == "dict":
            if isinstance(v, DictV):
                return DictV(v.c)
            raise PyRaise("ValidationError")
        if k == "df":
            if isinstance(v, DF):
                return v
            raise PyRaise("ValidationError")
        if k == "obj":
            if isinstance(v, Obj):
                return v
            raise PyRaise("ValidationError")
        return v

    def class_builtin(self, c, name):
        if name == "model_fields":
            return DictV(DConc([(n, Opaque("FieldInfo")) for n in self.public_fields(c)]))
        if name == "__name__":
            return c.name
        raise PyRaise("AttributeError", name)

    def public_fields(self, c):
        return [n for n in self.I.fields(c) if not n.startswith("_") and n != "model_config"]

    def obj_builtin(self, o, name):
        if not self.is_pydantic(o.cls):
            return None
        if name == "model_copy":
            def mc(update=None, deep=False):
                if deep:
                    raise Unsupported("deep copy")
                n = Obj(o.cls, o.c, o.sym, owned="made")
                if update is not None:
                    for k in self.lib.force_dict_items(update) if hasattr(self.lib, "force_dict_items") else self.conc_items(update):
                        self.I.setattr(n, k[0], k[1])
                return n

            return Builtin("model_copy", mc)
        if name == "model_dump":
            def md(exclude=None, include=None, **kw):
                if kw:
                    raise Unsupported("model_dump options")
                ex = [] if exclude is None else self.names_of(exclude)
                inc = None if include is None else self.names_of(include)
                items = []
                for f in self.public_fields(o.cls):
                    if f in ex or (inc is not None and f not in inc):
                        continue
                    items.append((f, self.I.getattr(o, f)))
                return DictV(DConc(items))

            return Builtin("model_dump", md)
        if name == "model_fields_set":
            return self.I.getattr(o, "_user_specified")
        return None

    def conc_items(self, d):
        d = self.I.force(d)
        if isinstance(d, DictV) and isinstance(d.c, DConc):
            return list(d.c.items)
        raise Unsupported("symbolic update")

    def names_of(self, s):
        return [x for x in self.lib.concrete_items(s)]

    def getattr_sym(self, o, key):
        o = self.I.force(o)
        key = self.I.force(key)
        if isinstance(o, Obj):
            table = {f: self.I.getattr(o, f) for f in self.public_fields(o.cls)}
            # one object, the same whatever the iterations under way: its fields do not depend on them
            fixed = o.sym is not None and not mentions(o.sym, ctx.generics) and all(
                ts is None or not any(mentions(t, ctx.generics) for t in ts) for ts in map(value_terms, o.c.values()))
            return KeyedVal(key, table, (o, table) if fixed else None)
        raise Unsupported("getattr with a symbolic name")

    def setattr_sym(self, o, key, v):
        if not isinstance(o, Obj):
            raise Unsupported("setattr with a symbolic name")
        if o.owned not in ("made", "param") and o.origin is None:
            raise Unsupported(f"assignment to an attribute of a {o.cls.name} reached through other objects")
        same = isinstance(v, KeyedVal) and is_z3(key) and is_z3(v.key) and v.key.eq(key)
        if isinstance(o.c, Pending):
            if o.c.write is not None or not same:
                raise Unsupported("several attributes set by name in one iteration")
            o.c = Pending((key, v))
            return
        d = Keyed(o.c)
        for f in self.public_fields(o.cls):
            e = z3.simplify(B(self.lib.eq(key, f)))
            if z3.is_false(e):
                continue
            if same:
                if f not in v.table:
                    continue
                new = v.table[f]
            else:
                new = v
            old = self.I.getattr(o, f)
            d[f] = new if z3.is_true(e) else merge([(e, new), (Not(e), old)])
        d.base = o.c if same else None
        o.c = d

    def keyed_result(self, o, content, k, fam, n, writes):
        """the object after a loop that set, in iteration k, the field named by a key to that field's value in a table"""
        d = dict(content)
        for f in self.public_fields(o.cls):
            alts = []
            for cond, (key, kv) in writes:
                if f not in kv.table:
                    continue
                if kv.root is not None:
                    v = kv.root[1][f]
                else:
                    v = kv.table[f]
                    ts = value_terms(v)
                    if ts is None or any(mentions(t, [k]) for t in ts):
                        raise Unsupported("a field set by name to a value that depends on the iteration")
                hit = z3.simplify(And(B(cond), B(self.lib.eq(key, f))))
                if z3.is_false(hit):
                    continue
                has = getattr(fam, "keyhas", None)
                if has is not None and z3.is_true(z3.simplify(B(cond))) and has[0](k).eq(key):
                    g = B(has[1](f))
                else:
                    g = rd.EXISTS((lambda h: lambda i: z3.substitute(h, (k, I_(i))))(hit), n)
                alts.append((g, v))
            if not alts:
                continue
            if len(alts) > 1:
                raise Unsupported("an attribute set by name on several paths")
            g, v = alts[0]
            d[f] = merge([(g, v), (Not(g), self.I.getattr(Obj(o.cls, content, o.sym), f))])
        return d

    # ------------------------------------------------------------ instance tests
    def isinstance1(self, v, t):
        if isinstance(v, (Opt, Union)):
            return self.lib.b_isinstance(v, t)
        nm = t.name if isinstance(t, (ClassV, Builtin)) else (t.path if isinstance(t, ExtFn) else None)
        if nm is None:
            raise Unsupported("isinstance")
        nm = nm.split(".")[-1]
        if isinstance(t, ClassV):
            if isinstance(v, Obj):
                return t.name in [c.name for c in self.I.mro(v.cls)]
            if isinstance(v, EnumV):
                return v.cls == t.name
            return False
        if nm == "str":
            if isinstance(v, EnumV):
                return "str" in self.I.base_names(self.I.cls(v.cls))
            return is_strv(v)
        if nm == "bool":
            return is_bool(v)
        if nm == "int":
            return is_int(v) or is_bool(v)
        if nm in ("float", "floating"):
            return is_real(v) or isinstance(v, float)
        if nm == "list":
            return isinstance(v, ListV)
        if nm == "tuple":
            return isinstance(v, TupleV)
        if nm == "dict":
            return isinstance(v, DictV)
        if nm == "set":
            return isinstance(v, SetV)
        if nm == "ndarray":
            return isinstance(v, Arr) and v.series is None
        if nm == "Series":
            return (isinstance(v, Arr) and v.series is not None) or isinstance(v, RowV)
        if nm == "DataFrame":
            return isinstance(v, DF)
        if isinstance(v, Opaque):
            return v.kind == nm
        return False

    # ------------------------------------------------------------ opaque objects: recorded calls, one list per method
    METHODS = ("axvline", "axhline", "scatter", "plot", "hist", "contour", "contourf", "fill_between", "fill_betweenx", "set_title", "other")

    def event(self, o, name, args, kwargs):
        if self.trace is not None and o.kind.split(".")[0] in ("Axes", "Figure", "matplotlib", "Legend", "Axis", "Colorbar"):
            ev = TupleV([TupleV(args), DictV(DConc(list(kwargs.items())))])
            m = o.kind.split(".")[-1] if name == "()" else name
            self.list_append(self.trace[m if m in self.trace else "other"], ev)
        return Opaque(f"{o.kind}.{name}", tuple(o.args))

    def opaque_call(self, f, a, k):
        return self.event(f, "()", a, k)

    def opaque_item(self, o, ix):
        if isinstance(ix, TupleV):
            return Opaque(o.kind, tuple(o.args) + tuple(ix.items))
        return Opaque(o.kind, tuple(o.args) + (ix,))

    # ------------------------------------------------------------ methods of builtin values
    def list_append(self, l, x):
        c = l.c
        if isinstance(c, Marker):
            l.c = Marker(c.name, c.delta + (x,), c.member)
        elif isinstance(c, Conc):
            l.c = Conc(c.items + (x,))
        elif isinstance(c, Cat) and isinstance(c.parts[-1], Conc):
            l.c = Cat(c.parts[:-1] + (Conc(c.parts[-1].items + (x,)),))
        else:
            l.c = Cat([*(c.parts if isinstance(c, Cat) else [c]), Conc([x])])

    def method(self, o, name, a, k):
        L = self.lib
        I_ = self.I
        if isinstance(o, (DF, RowV)):
            r = L.pd.method(o, name, a, k)
            if r is not NotImplemented:
                return r
            raise Unsupported(f"dataframe method {name}")
        if isinstance(o, Arr):
            return self.arr_method(o, name, a, k)
        if isinstance(o, ListV):
            return self.list_method(o, name, a, k)
        if isinstance(o, DictV):
            return self.dict_method(o, name, a, k)
        if isinstance(o, SetV):
            if name == "add":
                x = a[0]
                if isinstance(o.c, Marker):
                    o.c = Marker(o.c.name, o.c.delta + (x,), o.c.member)
                    return None
                if I_.decide(B(L.content_has(o.c, x))):
                    return None
                self.list_append(o, x)
                return None
            if name in ("union", "__or__"):
                return SetV(L.b_set(ListV(Cat([o.c, L.content_of(a[0])]))).c)
            if name == "copy":
                return SetV(o.c)
            raise Unsupported(f"set method {name}")
        if is_strv(o):
            return self.str_method(o, name, a, k)
        if isinstance(o, Opaque):
            return self.event(o, name, a, k)
        if isinstance(o, TupleV):
            return self.list_method(ListV(list(o.items)), name, a, k)
        if is_num(o) or is_bool(o):
            if name in ("item", "conjugate"):
                return o
            if name == "astype":
                return L.extcall("numpy.float64", [o], {}) if a and getattr(a[0], "name", "") == "float" else o
            if name in ("sum", "max", "min", "mean"):
                return o
            if name == "is_integer":
                return z3.IsInt(R(o)) if is_z3(o) else float(o).is_integer()
            if name in ("all", "any"):
                return o
        raise Unsupported(f"method {name} of {type(o).__name__}")

    def arr_method(self, o, name, a, k):
        L = self.lib
        np = L.np
        if name in ("to_numpy", "copy", "view", "squeeze") and not a:
            r = Arr(o.shape, o.fn)
            if hasattr(o, "fin"):
                r.fin = o.fin
            return r
        if name in ("to_list", "tolist"):
            if o.ndim != 1:
                raise Unsupported("nested tolist")
            return ListV(Fam(o.shape[0], lambda i: [(True, o.fn(i))], True))
        if name == "item":
            return o.fn(*([0] * o.ndim))
        if name == "astype":
            t = a[0]
            nm = t if isinstance(t, str) else getattr(t, "name", getattr(t, "path", ""))
            if "float" in nm:
                return np.map(lambda x: R(x) if not isinstance(x, float) else x, o)
            if "int" in nm:
                return np.map(lambda x: L.to_int(x), o)
            if "bool" in nm:
                return np.map(lambda x: B(self.I.truth_term(x)), o)
            raise Unsupported("astype")
        if name in ("flatten", "ravel"):
            return np.f_ravel(o)
        if name == "reshape":
            sh = a[0].items if len(a) == 1 and isinstance(a[0], TupleV) else a
            if len(sh) == 1 and num_const(sh[0]) == -1:
                return np.f_ravel(o)
            if len(sh) == 2 and o.ndim == 1 and num_const(sh[0]) == -1 and num_const(sh[1]) == 1:
                fn = o.fn
                return Arr((o.shape[0], 1), lambda i, j: fn(i))
            if len(sh) == 2 and o.ndim == 1 and num_const(sh[1]) == -1 and num_const(sh[0]) == 1:
                fn = o.fn
                return Arr((1, o.shape[0]), lambda i, j: fn(j))
            if len(sh) == 2 and o.ndim == 1:
                fn, w = o.fn, sh[1]
                if not self.I.decide(I_(sh[0]) * I_(sh[1]) == I_(o.shape[0])):
                    raise PyRaise("ValueError")
                return Arr((sh[0], sh[1]), lambda i, j: fn(I_(i) * I_(w) + I_(j)))
            raise Unsupported("reshape")
        if name == "dot":
            return np.f_dot(o, *a)
        if name == "idxmax":
            lab = (o.series or {}).get("label")
            i = np.call("argmax", [o], {})
            return lab(i) if lab else i
        if name in ("isnull", "isna"):
            return np.map(lambda x: False, o)
        if name in ("std", "var") and o.series is not None:
            k = dict(k)
            k.setdefault("ddof", 1)
        if name == "all" or name == "any" or hasattr(np, "f_" + name):
            return np.call(name, [o] + list(a), k)
        raise Unsupported(f"array method {name}")

    def list_method(self, o, name, a, k):
        L, I_ = self.lib, self.I
        if name == "append":
            self.list_append(o, a[0])
            return None
        if name == "extend":
            L.list_extend(o, a[0])
            return None
        if name in ("copy", "to_list", "tolist"):
            return ListV(o.c)
        if name == "to_numpy":
            return ListV(o.c)
        if name == "index":
            n = L.content_len(o.c)
            has = L.content_has(o.c, a[0])
            if not ctx.spec and not I_.decide(B(has)):
                raise PyRaise("ValueError")
            return rd.FIRST(lambda i: B(L.eq(L.content_item(o.c, i), a[0])), n)
        if name == "insert" and num_const(a[0]) == 0:
            o.c = Cat([Conc([a[1]]), o.c])
            return None
        if name == "pop":
            n = L.content_len(o.c)
            if not a and isinstance(o.c, Conc):
                if not o.c.items:
                    raise PyRaise("IndexError")
                x = o.c.items[-1]
                o.c = Conc(o.c.items[:-1])
                return x
            raise Unsupported("list.pop")
        if name == "count":
            n = L.content_len(o.c)
            c = o.c
            return z3.ToInt(rd.SUM(lambda i: z3.If(B(L.eq(L.content_item(c, i), a[0])), z3.RealVal(1), z3.RealVal(0)), n))
        if name == "remove":
            raise Unsupported("list.remove")
        if name == "sort":
            o.c = L.content_of(L.b_sorted(o, **k))
            return None
        if name == "reverse":
            o.c = L.content_of(L.b_reversed(o))
            return None
        if name == "clear":
            o.c = Conc([])
            return None
        raise Unsupported(f"list method {name}")

    def dict_method(self, o, name, a, k):
        L, I_ = self.lib, self.I
        if name in ("items", "keys", "values"):
            fn = {"items": lambda x, y: TupleV([x, y]), "keys": lambda x, y: x, "values": lambda x, y: y}[name]
            parts = L.dict_parts(o, fn)
            conts = [Conc(p) if kd == "c" else p for kd, p in parts]
            if name == "keys" and len(conts) == 1 and isinstance(conts[0], Fam):
                snap = DictV(o.c)
                conts[0].has = lambda x: L.dict_find(snap, x)[0]
            if len(conts) == 1:
                return ListV(conts[0], "dictview")
            from .loops import flatten

            return ListV(flatten(conts), "dictview")
        if name == "get":
            has, val = L.dict_find(o, a[0])
            d = a[1] if len(a) > 1 else None
            hb = conc_bool(has if isinstance(has, bool) else z3.simplify(has))
            if hb is True:
                return val
            if hb is False:
                return d
            if ctx.spec:
                return merge([(B(has), val), (Not(B(has)), d)])
            return val if I_.decide(B(has)) else d
        if name == "pop":
            return L.dict_pop(o, a[0], a[1] if len(a) > 1 else None, len(a) > 1)
        if name == "update":
            if a:
                L.dict_update(o, I_.force(a[0]))
            if k:
                L.dict_update(o, DictV(DConc(list(k.items()))))
            return None
        if name == "copy":
            return DictV(o.c)
        if name == "setdefault":
            has, val = L.dict_find(o, a[0])
            if I_.decide(B(has)):
                return val
            L.dict_set(o, a[0], a[1])
            return a[1]
        if name == "clear":
            o.c = DConc([])
            return None
        raise Unsupported(f"dict method {name}")

    def str_method(self, o, name, a, k):
        L = self.lib
        a = [self.I.force(x) for x in a]
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and not k:
            r = getattr(o, name)(*a)
            if isinstance(r, list):
                return ListV(r)
            return r
        if name == "join":
            return self.join(o, a[0])
        if name == "format":
            raise Unsupported("str.format")
        if name == "lower":
            if is_z3(o):
                f = z3.Function("strlower", Str, Str)
                return f(o)
        if name == "upper":
            if is_z3(o):
                return z3.Function("strupper", Str, Str)(o)
        if name in ("startswith", "endswith"):
            if isinstance(a[0], str) and is_z3(o):
                return z3.Function(f"{name}[{a[0]!r}]", Str, Bool)(o)
            if isinstance(o, Rope) and o.parts and isinstance(o.parts[0], str) and isinstance(a[0], str):
                p = o.parts[0]
                if name == "startswith" and len(p) >= len(a[0]):
                    return p.startswith(a[0])
            raise Unsupported(name)
        if name in ("strip", "rstrip", "lstrip", "replace", "title", "capitalize"):
            if name == "replace" and isinstance(a[0], str) and isinstance(a[1], str) and a[0] == "%" and a[1] == "%%":
                from .lib import EscPart

                return Rope([EscPart(o)])
            if is_z3(o):
                f = z3.Function(f"str.{name}{tuple(x for x in a)!r}", Str, Str)
                return f(o)
            raise Unsupported(f"str.{name} of structured text")
        raise Unsupported(f"string method {name}")

    def join(self, sep, v):
        L = self.lib
        parts = []
        it = toiter(self.I, v)
        for kind, p in it.parts:
            if kind == "c":
                for x in p:
                    if parts and sep:
                        parts.append(sep)
                    parts.append(x)
            else:
                if parts and sep:
                    raise Unsupported("join of mixed sequence")
                f = p
                parts.append(FamPart(f.n, lambda i: L.mkrope([f.items(i)[0][1]]), lambda i: B(f.items(i)[0][0]), sep))
        return L.mkrope(parts)

    # ------------------------------------------------------------ generators
    def make_generator(self, f, env):
        return GenV(f, env)

    def gen_next(self, v):
        """an endless generator (while True without a way out): some value of the annotated type each time, nothing else known"""
        if not isinstance(v, GenV):
            return NotImplemented
        fn = v.f.node
        body = [st for st in fn.body if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))]
        endless = len(body) == 1 and isinstance(body[0], ast.While) and isinstance(body[0].test, ast.Constant) and body[0].test.value is True
        if not endless or any(isinstance(x, (ast.Return, ast.Break, ast.Raise)) for x in ast.walk(fn)):
            raise Unsupported("next() on a generator that may end")
        ann = fn.returns
        if not isinstance(ann, ast.Subscript):
            raise Unsupported("next() on a generator of an unknown type")
        ann = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) else ann.slice
        n = v.state.c["yielded"]
        v.state.set("yielded", self.lib.binop(ast.Add(), n, 1))
        return self.mk(self.types.conv(ann, v.f.module), v.name, [I_(n)], v.f.module)


class GenV:
    def __init__(self, f, env):
        self.f, self.env = f, env
        self.name = f"yielded!{next(ctx.counter)}"
        self.state = Env()
        self.state.set("yielded", 0)


def decl_names(v):
    """names of the head declarations of the terms a symbolic field value is made of"""
    out = set()

    def head(t):
        if is_z3(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())

    def go(v, depth=0):
        if is_z3(v):
            head(v)
        elif isinstance(v, Opt):
            head(v.none)
            go(v.val)
        elif isinstance(v, Union):
            for c, x in v.alts:
                for d in decls_in(c, set()):
                    out.add(d)
                go(x)
        elif isinstance(v, DF):
            c = v.c
            head(c.n)
            s = z3.Const("probe!s", Str)
            i = z3.Int("probe!i")
            head(c.cell(s, i))
            if isinstance(c.cols, Fam):
                head(c.cols.n)
                go(c.cols.items(i)[0][1])
        elif isinstance(v, (ListV, SetV)) and isinstance(v.c, Fam) and depth < 2:
            head(v.c.n)
            i = z3.Int("probe!i")
            for _, x in v.c.items(i):
                go(x, depth + 1)
        elif isinstance(v, DictV) and isinstance(v.c, DFam) and depth < 2:
            head(v.c.n)
            i = z3.Int("probe!i")
            go(v.c.key(i))
            go(v.c.val(i), depth + 1)
        elif isinstance(v, Obj) and v.sym is not None:
            head(v.sym)
        elif isinstance(v, Arr):
            for s in v.shape:
                head(s)
    go(v)
    return out
