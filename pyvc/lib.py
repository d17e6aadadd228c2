"""Models of Python builtins and containers for the symbolic interpreter."""
from __future__ import annotations

import ast

import z3

from . import reduce as rd
from .core import *  # noqa
from .interp import (BoundV, Builtin, CarryAtom, ClassV, ExtFn, FuncV, ModV, Module, Poison, SymIter, INF)
from .loops import DPts, Flat, I_, content_parts, flatten, injective, toiter


def isinf(x):
    return isinstance(x, float) and x in (INF, -INF)


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class FmtCall:
    pass


class PartialV:
    def __init__(self, fn):
        self.fn = fn


CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class Lib:
    def __init__(self, I):
        from . import nplib, pdlib, objlib

        self.I = I
        self.np = nplib.NP(self)
        self.pd = pdlib.PD(self)
        self.ob = objlib.Objs(self)
        self.spec_builtins = {}

    # ------------------------------------------------------------------ equality
    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Opt) or isinstance(b, Opt):
            if not isinstance(a, Opt):
                a, b = b, a
            if b is None:
                return a.none
            if isinstance(b, Opt):
                return Or(And(a.none, b.none), And(Not(a.none), Not(b.none), B(self.eq(a.val, b.val))))
            return And(Not(a.none), B(self.eq(a.val, b)))
        if isinstance(a, Union):
            return Or(*[And(c, B(self.eq(v, b))) for c, v in a.alts])
        if isinstance(b, Union):
            return Or(*[And(c, B(self.eq(a, v))) for c, v in b.alts])
        if a is None or b is None:
            return False
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.ew(lambda x, y: self.eq(x, y), a, b)
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return z3.simplify(B(a) == B(b))
        if is_strv(a) and is_strv(b):
            return self.streq(a, b)
        if is_strv(a) or is_strv(b):
            return False
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a.cls == b.cls and a.name == b.name
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if isinf(a) or isinf(b):
                return isinf(a) and isinf(b) and a == b
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            if is_int(a) and is_int(b):
                return I(a) == I(b)
            return R(a) == R(b)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)):
            return self.seq_eq(a, b)
        if isinstance(a, DictV) and isinstance(b, DictV):
            return self.dict_eq(a, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.conj([self.subset(a, b), self.subset(b, a)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls.name != b.cls.name:
                return False
            if a.sym is not None and b.sym is not None:
                names = sorted(set(a.c) | set(b.c))
                if not a.sym.eq(b.sym) or not names:
                    return And(a.sym == b.sym) if not names else And(a.sym == b.sym, *[B(self.eq(self.I.getattr(a, n), self.I.getattr(b, n))) for n in names])
                return self.conj([self.eq(self.I.getattr(a, n), self.I.getattr(b, n)) for n in names])
            return self.obj_eq(a, b)
        if isinstance(a, (Opaque,)) and isinstance(b, Opaque):
            if a.kind != b.kind or len(a.args) != len(b.args):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.args, b.args)])
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if type(a) is not type(b):
            return False
        raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")

    def obj_eq(self, a, b):
        if a.cls.name != b.cls.name:
            return False
        names = set(a.c) | set(b.c)
        out = []
        for n in sorted(names):
            out.append(self.eq(self.I.getattr(a, n), self.I.getattr(b, n)))
        return self.conj(out)

    def conj(self, xs):
        if all(isinstance(x, bool) for x in xs):
            return all(xs)
        return And(*[B(x) for x in xs])

    def streq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Rope) or isinstance(b, Rope):
            ra = a if isinstance(a, Rope) else Rope([a])
            rb = b if isinstance(b, Rope) else Rope([b])
            return self.rope_eq(ra, rb)
        return S(a) == S(b)

    def rope_eq(self, a, b):
        """structural equality of texts (sufficient; exact on equal skeletons of opaque text atoms)"""
        if len(a.parts) == len(b.parts):
            out = []
            for x, y in zip(a.parts, b.parts):
                e = self.part_eq(x, y)
                if e is None:
                    break
                out.append(e)
            else:
                if all(isinstance(x, bool) for x in out) and all(out):
                    return True
                if any(x is False for x in out):
                    pass
                else:
                    simple = not any(isinstance(p, (FamPart, RepPart, CarryAtom)) for p in a.parts + b.parts)
                    if simple and not ctx.spec:
                        return rope_term(a) == rope_term(b)
                    return self.conj(out)
        if self.simple_rope(a) and self.simple_rope(b):
            return rope_term(a) == rope_term(b)
        if ctx.spec:
            return self.align(a, b)
        raise Unsupported("comparison of structured text")

    def simple_rope(self, a):
        return not any(isinstance(p, (FamPart, CarryAtom)) for p in a.parts)

    def align(self, a, b):
        """normal forms: split FamParts with constant leading text is not attempted"""
        ctx.notes.add("text skeletons differ")
        ctx.tainted.add("text")
        return z3.Bool(f"texteq!{next(ctx.counter)}")

    def part_eq(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if is_strv(x) and is_strv(y):
            return S(x) == S(y)
        if isinstance(x, FmtPart) and isinstance(y, FmtPart):
            if x.spec != y.spec:
                return None
            return self.eq(x.term, y.term)
        if isinstance(x, RepPart) and isinstance(y, RepPart):
            if x.text != y.text:
                return None
            return self.eq(x.n, y.n)
        if isinstance(x, FamPart) and isinstance(y, FamPart):
            if x.sep != y.sep:
                return None
            def at(i):
                gx, gy = B(x.guard(i)), B(y.guard(i))
                e = self.sub_eq(lambda: self.streq(x.rope(i), y.rope(i)))
                return And(gx == gy, Implies(gx, B(e)))
            return And(I_(x.n) == I_(y.n), rd.FORALL(at, x.n))
        if isinstance(x, CarryAtom) and x is y:
            return True
        return None

    def sub_eq(self, th):
        return th()

    def seq_eq(self, a, b):
        if isinstance(a, TupleV):
            a = ListV(Conc(a.items))
        if isinstance(b, TupleV):
            b = ListV(Conc(b.items))
        ca, cb = a.c, b.c
        if isinstance(ca, Conc) and isinstance(cb, Conc):
            if len(ca.items) != len(cb.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(ca.items, cb.items)])
        r = self.content_eq(ca, cb)
        if r is not None:
            return r
        na, nb = self.length(a), self.length(b)
        for x, nx, y, ny in ((ca, na, b, nb), (cb, nb, a, na)):
            if isinstance(nx, int) and nx <= 6:
                return self.conj([self.eq(ny, nx)] + [self.eq(self.item(y, i), self.content_item(x, i)) for i in range(nx)])
        return And(I_(na) == I_(nb), rd.FORALL(lambda i: B(self.eq(self.item(a, i), self.item(b, i))), na))

    def content_eq(self, ca, cb):
        if ca is cb:
            return True
        if isinstance(ca, Fam) and isinstance(cb, Fam):
            k = z3.Int("probe")
            ia, ib = ca.items(k), cb.items(k)
            if len(ia) == len(ib) and (bool(ca.plain) == bool(cb.plain)) and (ctx.goal or ca.plain):
                def at(i):
                    out = []
                    for (g, v), (h, w) in zip(ca.items(i), cb.items(i)):
                        out.append(And(B(g) == B(h), Implies(B(g), B(self.eq(v, w)))))
                    return And(*out)
                return And(I_(ca.n) == I_(cb.n), rd.FORALL(at, ca.n))
        if isinstance(ca, Cat) and isinstance(cb, Cat) and len(ca.parts) == len(cb.parts):
            rs = [self.content_eq(x, y) for x, y in zip(ca.parts, cb.parts)]
            if all(r is not None for r in rs):
                return self.conj(rs)
        if isinstance(ca, Conc) and isinstance(cb, Conc):
            if len(ca.items) != len(cb.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(ca.items, cb.items)])
        if isinstance(ca, Uniq) and isinstance(cb, Uniq):
            return self.content_eq(ca.inner, cb.inner)
        if isinstance(ca, Flat) and isinstance(cb, Flat):
            def at(i):
                r = self.content_eq(ca.inner(i), cb.inner(i))
                if r is None:
                    raise Unsupported("comparison of nested sequences")
                return B(r)
            return And(I_(ca.n) == I_(cb.n), rd.FORALL(at, ca.n))
        return None

    def subset(self, a, b):
        """every element of a is in b"""
        out = []
        for kind, p in toiter(self.I, a).parts:
            if kind == "c":
                out.extend(self.contains(b, x) for x in p)
            else:
                def at(i):
                    return And(*[Implies(B(g), B(self.contains(b, v))) for g, v in p.items(i)])
                out.append(rd.FORALL(at, p.n))
        return self.conj(out)

    def dict_layers(self, d):
        c = d.c if isinstance(d, DictV) else d
        if isinstance(c, DLayers):
            out = []
            for x in c.layers:
                out.extend(self.dict_layers(x))
            return out
        return [c]

    def dict_eq(self, a, b):
        """same keys in the same order is not required; same mapping"""
        ca, cb = a.c, b.c
        if isinstance(ca, DFam) and isinstance(cb, DFam):
            k = z3.Int("probe")
            same_n = I_(ca.n).eq(I_(cb.n)) or conc_bool(z3.simplify(I_(ca.n) == I_(cb.n))) is True
            ek = self.eq(ca.key(k), cb.key(k))
            if same_n and (ek is True or (is_z3(ek) and z3.is_true(z3.simplify(ek)))):
                def at(i):
                    gx, gy = B(ca.guard(i)), B(cb.guard(i))
                    return And(gx == gy, Implies(gx, B(self.eq(ca.val(i), cb.val(i)))))
                return rd.FORALL(at, ca.n)
        if isinstance(ca, DConc) and isinstance(cb, DConc) and all(isinstance(k, str) for k, _ in ca.items + cb.items):
            da, db = dict(ca.items), dict(cb.items)
            if set(da) != set(db):
                return False
            return self.conj([self.eq(da[k], db[k]) for k in da])
        return self.conj([self.dict_sub(a, b), self.dict_sub(b, a)])

    def dict_sub(self, a, b):
        out = []
        for part in self.dict_parts(a, lambda k, v: TupleV([k, v])):
            kind, p = part
            if kind == "c":
                for t in p:
                    has, val = self.dict_find(b, t.items[0])
                    out.append(And(B(has), B(self.eq(t.items[1], val)) if val is not None or conc_bool(has) is not False else False))
            else:
                def at(i):
                    r = []
                    for g, t in p.items(i):
                        has, val = self.dict_find(b, t.items[0])
                        if conc_bool(has) is False:
                            r.append(Not(B(g)))
                        else:
                            r.append(Implies(B(g), And(B(has), B(self.eq(t.items[1], val)))))
                    return And(*r)
                out.append(rd.FORALL(at, p.n))
        return self.conj(out)

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else Not(r)
            return r
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            if isinstance(r, Arr):
                return self.np.map(lambda x: Not(x) if is_z3(x) else (not x), r)
            return (not r) if isinstance(r, bool) else Not(r)
        o = CMP[type(op)]
        return self.order(o, a, b)

    def order(self, o, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.ew(lambda x, y: self.order(o, x, y), a, b)
        if isinstance(a, Opt):
            a = self.I.force(a)
        if isinstance(b, Opt):
            b = self.I.force(b)
        if isinstance(a, Union):
            return Or(*[And(c, B(self.order(o, v, b))) for c, v in a.alts])
        if isinstance(b, Union):
            return Or(*[And(c, B(self.order(o, a, v))) for c, v in b.alts])
        if a is None or b is None:
            raise PyRaise("TypeError", "order of None")
        if isinf(a) or isinf(b):
            if isinf(a) and isinf(b):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            if isinf(a):
                return (a > 0) == (o in (">", ">="))
            return (b > 0) == (o in ("<", "<="))
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if not ((is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b))):
            if isinstance(a, SetV) and isinstance(b, SetV) and o == "<=":
                return self.subset(a, b)
            raise Unsupported(f"order of {type(a).__name__} and {type(b).__name__}")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if is_int(a) and is_int(b):
            x, y = I(a), I(b)
        else:
            x, y = R(a), R(b)
            r = rd.order0(o, x, y)
            if r is not None:
                return r
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]

    def is_(self, a, b):
        if b is None or a is None:
            if a is None and b is None:
                return True
            x = a if b is None else b
            if isinstance(x, Opt):
                return x.none
            if isinstance(x, Union):
                return Or(*[c for c, v in x.alts if v is None])
            return False
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, EnumV) or isinstance(b, EnumV) or isinstance(a, (Union, Opt)):
            return self.eq(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.sym is not None and b.sym is not None:
            return a.sym == b.sym
        if isinstance(a, (ClassV,)) and isinstance(b, ClassV):
            return a.name == b.name
        return a is b

    # ------------------------------------------------------------------ membership
    def contains(self, c, x):
        c = self.I.force(c)
        if isinstance(c, TupleV):
            return self.disj([self.eq(y, x) for y in c.items])
        if isinstance(c, (ListV, SetV, DictV)) and isinstance(c.c, Marker):
            m = c.c
            if m.delta:
                raise Unsupported("membership test after an update in the same iteration")
            if m.member is None:
                c.c = m = Marker(m.name, m.delta, (x, ctx.fresh("member", Bool)))
            elif not (m.member[0] is x or (is_z3(x) and is_z3(m.member[0]) and x.eq(m.member[0]))):
                raise Unsupported("two membership tests in one iteration")
            return m.member[1]
        if isinstance(c, (ListV, SetV)):
            return self.content_has(c.c, x)
        if isinstance(c, DictV):
            return self.dict_find(c, x)[0]
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Arr):
            return rd.EXISTS(lambda i: B(self.eq(c.fn(i), x)), c.shape[0])
        h = self.pd.contains(c, x)
        if h is not None:
            return h
        if isinstance(c, Opaque):
            return z3.Function(f"in_{c.kind}", Str, Bool)(S(x)) if is_strv(x) else z3.Bool(f"in!{next(ctx.counter)}")
        if isinstance(c, RangeV):
            return And(I_(c.lo) <= I(x), I(x) < I_(c.hi))
        if isinstance(c, ExtFn):
            # a constant collection of strings of a library
            x = self.I.force(x)
            if x is None:
                return False
            if not is_strv(x):
                raise Unsupported("membership of a value that is no string in a constant of a library")
            return z3.Function(f"in_{c.path}", Str, Bool)(S(x))
        raise Unsupported(f"membership in {type(c).__name__}")

    def disj(self, xs):
        if all(isinstance(x, bool) for x in xs):
            return any(xs)
        return Or(*[B(x) for x in xs])

    def content_has(self, c, x):
        if isinstance(x, Opt) and not ctx.spec:
            x = self.I.force(x)
        if isinstance(c, Conc):
            return self.disj([self.eq(y, x) for y in c.items])
        if isinstance(c, Fam):
            has = getattr(c, "has", None)
            if has is not None:
                return has(x)
            return rd.EXISTS(lambda i: Or(*[And(B(g), B(self.eq(v, x))) for g, v in c.items(i)]), c.n)
        if isinstance(c, Cat):
            return self.disj([self.content_has(p, x) for p in c.parts])
        if isinstance(c, Uniq):
            return self.content_has(c.inner, x)
        if isinstance(c, Flat):
            return rd.EXISTS(lambda i: B(self.content_has(c.inner(i), x)), c.n)
        if isinstance(c, Marker):
            raise MarkerMember(c, x)
        raise Unsupported(f"membership in {type(c).__name__}")

    # ------------------------------------------------------------------ dicts
    def dict_parts(self, d, fn):
        out = []
        layers = self.dict_layers(d)
        if len(layers) > 1 and all(isinstance(c, DFam) for c in layers):
            # in order of first insertion, with the value of the last layer that has the key
            for j, c in enumerate(layers):
                def items(i, c=c, j=j):
                    k = c.key(i)
                    seen = [B(self.layer_find(e, k)[0]) for e in layers[:j]]
                    val = c.val(i)
                    for e in layers[j + 1:]:
                        h, v = self.layer_find(e, k)
                        if conc_bool(h if isinstance(h, bool) else z3.simplify(h)) is not False:
                            val = merge([(B(h), v), (Not(B(h)), val)])
                    return [(And(B(c.guard(i)), Not(Or(*seen))) if seen else B(c.guard(i)), fn(k, val))]
                out.append(("f", Fam(c.n, items, False)))
            return out
        for j, c in enumerate(layers):
            later = layers[j + 1:]
            if isinstance(c, DConc):
                items = []
                for k, v in c.items:
                    items.append((k, v))
                if later and items:
                    raise Unsupported("iteration over overridden dict layers")
                if items:
                    out.append(("c", [fn(k, v) for k, v in items]))
            elif isinstance(c, DFam):
                if later:
                    # iteration order is that of first insertion; only disjoint layers are supported
                    for l in later:
                        if isinstance(l, DConc):
                            for k, _ in l.items:
                                hit = rd.EXISTS(lambda i: And(B(c.guard(i)), B(self.eq(c.key(i), k))), c.n)
                                if not ctx.entails(Not(hit), 1500):
                                    raise Unsupported("iteration over overlapping dict layers")
                        else:
                            raise Unsupported("iteration over layered dict families")
                f = Fam(c.n, (lambda c: lambda i: [(B(c.guard(i)), fn(c.key(i), c.val(i)))])(c), self.trivially(c))
                if d.c is c:
                    f.src = (d, c)
                if getattr(c, "has", None) is not None:
                    f.keyhas = (c.key, c.has)
                out.append(("f", f))
            else:
                raise Unsupported("iteration over " + type(c).__name__)
        if len(layers) > 1 and any(isinstance(l, DConc) for l in layers):
            pass
        return out

    def trivially(self, c):
        g = c.guard(z3.Int("probe"))
        return conc_bool(g) is True or (is_z3(g) and z3.is_true(z3.simplify(g)))

    def match_index(self, c, key):
        """t such that c.key(t) is syntactically key"""
        if not is_z3(key):
            return None
        p = z3.Int("probe!key")
        try:
            pat = c.key(p)
        except Unsupported:
            return None
        if not is_z3(pat):
            return None
        res = []

        def go(a, b):
            if a.eq(p):
                if res and not res[0].eq(b):
                    return False
                if not res:
                    res.append(b)
                return True
            if a.eq(b):
                return True
            if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args() > 0:
                return all(go(x, y) for x, y in zip(a.children(), b.children()))
            return False

        if go(pat, key) and res:
            return res[0]
        return None

    def dict_find(self, d, key):
        """(has, value) ; value None when certainly absent"""
        layers = self.dict_layers(d)
        has, val = False, None
        for c in layers:
            h, v = self.layer_find(c, key, d)
            hb = conc_bool(h if isinstance(h, bool) else z3.simplify(h))
            if hb is False:
                continue
            if hb is True or val is None and has is False:
                if hb is True:
                    has, val = True, v
                else:
                    has, val = h, v
            else:
                val = merge([(B(h), v), (Not(B(h)), val)])
                has = Or(B(h), B(has))
        return has, val

    def layer_find(self, c, key, d=None):
        if isinstance(c, DConc):
            if isinstance(key, (str, EnumV)) and all(isinstance(k, (str, EnumV)) for k, _ in c.items):
                for k, v in reversed(c.items):
                    if self.eq(k, key) is True:
                        return True, v
                return False, None
            has, val = False, None
            for k, v in c.items:
                e = self.eq(k, key)
                eb = conc_bool(e if isinstance(e, bool) else z3.simplify(e))
                if eb is False:
                    continue
                if eb is True:
                    return True, v
                val = v if val is None and has is False else merge([(B(e), v), (Not(B(e)), val)])
                has = Or(B(has), B(e))
            return has, val
        if isinstance(c, DFam):
            t = self.match_index(c, key)
            if t is not None:
                g = B(c.guard(t))
                inr = And(0 <= t, t < I_(c.n))
                if conc_bool(z3.simplify(inr)) is True or ctx.entails(inr, 400):
                    return g, c.val(t)
            gd = lambda i: And(B(c.guard(i)), B(self.eq(c.key(i), key)))
            has = rd.EXISTS(gd, c.n)
            ix = rd.FIRST(gd, c.n)
            return has, c.val(ix)
        if isinstance(c, DPts):
            for ix, v in reversed(c.pts):
                b = c.base
                if isinstance(b, DFam):
                    e = self.eq(b.key(ix), key)
                    eb = conc_bool(e if isinstance(e, bool) else z3.simplify(e))
                    if eb is True:
                        return True, v
                    if eb is None:
                        raise Unsupported("lookup in a partly updated dict")
            return self.layer_find(c.base, key)
        if isinstance(c, Marker):
            raise MarkerMember(c, key)
        raise Unsupported("lookup in " + type(c).__name__)

    def dict_set(self, d, key, v):
        c = d.c
        if isinstance(c, Marker):
            d.c = Marker(c.name, c.delta + ((key, v),), c.member)
            return
        if isinstance(c, DPts):
            t = self.match_index(c.base, key)
            if t is not None:
                d.c = DPts(c.base, [p for p in c.pts if not p[0].eq(t)] + [(t, v)])
                return
            raise Unsupported("dict update")
        if isinstance(c, DConc):
            if all(isinstance(k, (str, EnumV)) or (isinstance(k, int)) for k, _ in c.items) and isinstance(key, (str, EnumV, int)):
                items, done = [], False
                for k, x in c.items:
                    if self.eq(k, key) is True:
                        items.append((k, v))
                        done = True
                    else:
                        items.append((k, x))
                d.c = DConc(items if done else items + [(key, v)])
                return
            items = list(c.items)
            for j, (k, x) in enumerate(items):
                e = self.eq(k, key)
                if self.I.decide(B(e)):
                    items[j] = (k, v)
                    d.c = DConc(items)
                    return
            d.c = DConc(items + [(key, v)])
            return
        if isinstance(c, DFam) and ctx.generics:
            t = self.match_index(c, key)
            if t is not None and any(t.eq(g) for g in ctx.generics):
                g = And(B(c.guard(t)), 0 <= t, t < I_(c.n))
                if ctx.entails(g, 1000):
                    d.c = DPts(c, [(t, v)])
                    return
        if isinstance(c, (DFam, DLayers)):
            d.c = DLayers([c, DConc([(key, v)])])
            return
        raise Unsupported("dict update of " + type(c).__name__)

    def dict_update(self, d, other):
        other = self.I.force(other)
        if not isinstance(other, DictV):
            raise Unsupported("dict update from " + type(other).__name__)
        if isinstance(other.c, DConc):
            for k, v in other.c.items:
                self.dict_set(d, k, v)
            return
        if isinstance(d.c, DConc) and not d.c.items:
            d.c = other.c
        else:
            d.c = DLayers([d.c, other.c])

    def merge_kwargs(self, kwargs, d):
        if isinstance(d, dict):
            kwargs.update(d)
            return
        if not isinstance(d, DictV):
            raise Unsupported("keyword expansion of " + type(d).__name__)
        if isinstance(d.c, DConc):
            for k, v in d.c.items:
                if not isinstance(k, str):
                    raise Unsupported("symbolic keyword")
                kwargs[k] = v
            return
        if isinstance(d.c, Opaque):
            pass
        kwargs["**"] = d

    def dict_pop(self, d, key, default=None, has_default=False):
        has, val = self.dict_find(d, key)
        if not self.I.decide(B(has)):
            if has_default:
                return default
            raise PyRaise("KeyError")
        self.dict_del(d, key)
        return val

    def dict_del(self, d, key):
        c = d.c
        if isinstance(c, DConc):
            items = list(c.items)
            for j, (k, x) in enumerate(items):
                if self.I.decide(B(self.eq(k, key))):
                    d.c = DConc(items[:j] + items[j + 1:])
                    return
            raise PyRaise("KeyError")
        if isinstance(c, DFam):
            d.c = DFam(c.n, c.key, c.val, lambda i: And(B(c.guard(i)), Not(B(self.eq(c.key(i), key)))), object())
            return
        if isinstance(c, DLayers):
            new = []
            for l in c.layers:
                t = DictV(l)
                try:
                    self.dict_del(t, key)
                except PyRaise:
                    pass
                new.append(t.c)
            d.c = DLayers(new)
            return
        raise Unsupported("dict deletion")

    # ------------------------------------------------------------------ sequences
    def length(self, v):
        if isinstance(v, str):
            return len(v)
        if isinstance(v, TupleV):
            return len(v.items)
        if isinstance(v, (ListV, SetV)):
            return self.content_len(v.c)
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, DictV):
            tot = 0
            for kind, p in self.dict_parts(v, lambda k, x: k):
                tot = self.addi(tot, len(p) if kind == "c" else self.content_len(p))
            return tot
        h = self.pd.length(v)
        if h is not None:
            return h
        if isinstance(v, (list, tuple)):
            return len(v)
        if is_z3(v) and v.sort() == Str:
            f = z3.Function("strlen", Str, Int)
            ctx.assume(f(v) >= 0)
            return f(v)
        if isinstance(v, Rope):
            f = z3.Function("strlen", Str, Int)
            t = f(rope_term(v))
            ctx.assume(t >= 0)
            return t
        if isinstance(v, RangeV):
            return self.range_len(v)
        raise Unsupported(f"len of {type(v).__name__}")

    def range_len(self, v):
        if v.step == 1:
            if isinstance(v.lo, int) and isinstance(v.hi, int):
                return max(0, v.hi - v.lo)
            n = z3.simplify(I_(v.hi) - I_(v.lo))
            if not ctx.feasible(n < 0):
                return n
            return If(n > 0, n, z3.IntVal(0))
        if isinstance(v.lo, int) and isinstance(v.hi, int) and isinstance(v.step, int):
            return len(range(v.lo, v.hi, v.step))
        raise Unsupported("range step")

    def addi(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return I_(a) + I_(b)

    def content_len(self, c):
        if isinstance(c, Conc):
            return len(c.items)
        if isinstance(c, Fam):
            if c.plain:
                return c.n
            its = c.items(z3.Int("probe"))
            if all(conc_bool(g) is True or (is_z3(g) and z3.is_true(z3.simplify(g))) for g, _ in its):
                return self.muli(c.n, len(its))
            if len(its) == 1:
                return rd.NZ(lambda i: B(c.items(i)[0][0]), c.n)[0]
            tot = 0
            for j in range(len(its)):
                tot = self.addi(tot, rd.NZ(lambda i: B(c.items(i)[j][0]), c.n)[0])
            return tot
        if isinstance(c, Cat):
            t = 0
            for p in c.parts:
                t = self.addi(t, self.content_len(p))
            return t
        if isinstance(c, Uniq):
            t = 0
            for kind, p in content_parts(self.I, c):
                t = self.addi(t, len(p) if kind == "c" else self.content_len(p))
            return t
        if isinstance(c, Flat):
            w = self.flat_width(c)
            if w is not None:
                return self.muli(c.n, w)
            s = rd.SUM(lambda i: R(self.content_len(c.inner(i))), c.n)
            return z3.ToInt(s)
        if isinstance(c, Marker):
            n = z3.Int(f"len_{c.name}")
            raise Unsupported("length of a list being built")
        raise Unsupported(f"length of {type(c).__name__}")

    def flat_width(self, c):
        """the common length of the inner lists, None when it varies"""
        k = z3.Int("probe!flat")
        ctx.generics.append(k)
        try:
            w = self.content_len(c.inner(k))
        except Unsupported:
            return None
        finally:
            ctx.generics.pop()
        if isinstance(w, int):
            return w
        return None if mentions(z3.simplify(w), [k]) else w

    def muli(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        return I_(a) * I_(b)

    def item(self, v, i):
        """element i (assumed in range) without bounds decision"""
        return self.content_item(v.c, i)

    def content_item(self, c, i):
        if isinstance(c, Conc):
            if isinstance(i, int):
                return c.items[i]
            n = num_const(i)
            if n is not None:
                return c.items[int(n)]
            its = c.items
            return merge([(I(i) == j, x) for j, x in enumerate(its[:-1])] + [(And(*[I(i) != j for j in range(len(its) - 1)]), its[-1])])
        if isinstance(c, Fam):
            if c.plain:
                return c.items(i)[0][1]
            its = c.items(z3.Int("probe"))
            if len(its) == 1:
                _, pos, _ = rd.NZ(lambda j: B(c.items(j)[0][0]), c.n)
                return c.items(pos(I_(i)))[0][1]
            if all(conc_bool(g) is True for g, _ in its):
                w = len(its)
                i = I_(i)
                vals = c.items(i / w)
                return merge([(i % w == j, vals[j][1]) for j in range(w)])
        if isinstance(c, Cat):
            lens = [self.content_len(p) for p in c.parts]
            off, alts, neg = 0, [], []
            for p, l in zip(c.parts, lens):
                rel = self.subi(i, off)
                cond = I_(rel) < I_(l)
                cb = conc_bool(z3.simplify(cond))
                if cb is True and not neg:
                    return self.content_item(p, rel)
                if cb is not False:
                    if not (isinstance(p, Conc) and not p.items):
                        alts.append((And(*neg, cond), self.content_item(p, rel)))
                    neg.append(Not(cond))
                off = self.addi(off, l)
            if not alts:
                raise PyRaise("IndexError")
            # make exhaustive
            last = And(*[Not(c_) for c_, _ in alts[:-1]]) if len(alts) > 1 else z3.BoolVal(True)
            alts[-1] = (last, alts[-1][1])
            return merge(alts)
        if isinstance(c, Uniq):
            ps = content_parts(self.I, c)
            return self.content_item(flatten([Conc(p) if k == "c" else p for k, p in ps]), i)
        if isinstance(c, Flat):
            w = self.flat_width(c)
            if w is not None and not (isinstance(w, int) and w == 0):
                i = I_(i)
                return self.content_item(c.inner(i / I_(w)), i % I_(w))
        raise Unsupported(f"item of {type(c).__name__}")

    def subi(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - b
        if isinstance(b, int) and b == 0:
            return a
        return z3.simplify(I_(a) - I_(b))

    def norm_index(self, i, n, check=True):
        """python index -> nonnegative index, raising IndexError by decision"""
        i = self.I.force(i)
        if is_real(i):
            i = z3.ToInt(i)
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            if not (0 <= j < n):
                raise PyRaise("IndexError")
            return j
        if isinstance(i, int):
            if i < 0:
                j = z3.simplify(I_(n) + i)
                if check and not self.I.decide(j >= 0):
                    raise PyRaise("IndexError")
                return j
            if check and not self.I.decide(I_(n) > i):
                raise PyRaise("IndexError")
            return i
        i = I(i)
        if check:
            if self.I.decide(i < 0):
                i = i + I_(n)
                if not self.I.decide(i >= 0):
                    raise PyRaise("IndexError")
            elif not self.I.decide(i < I_(n)):
                raise PyRaise("IndexError")
        return i

    def make_list(self, elts):
        parts = []
        for k, v in elts:
            if k == "v":
                parts.append(Conc([v]))
            else:
                for kind, p in toiter(self.I, v).parts:
                    parts.append(Conc(p) if kind == "c" else p)
        return ListV(flatten(parts))

    def content_of(self, v):
        v = self.I.force(v)
        if isinstance(v, (ListV, SetV)):
            return v.c
        parts = []
        for kind, p in toiter(self.I, v).parts:
            parts.append(Conc(p) if kind == "c" else p)
        return flatten(parts)

    def list_extend(self, l, v):
        c = self.content_of(v)
        if isinstance(l.c, Marker):
            if isinstance(c, Conc):
                l.c = Marker(l.c.name, l.c.delta + tuple(c.items), l.c.member)
                return
            raise Unsupported("extending a list by a family inside a loop")
        l.c = flatten([l.c, c])

    def concrete_items(self, v):
        it = toiter(self.I, v)
        if not it.concrete:
            raise Unsupported("expansion of a symbolic sequence")
        return it.items()

    def iter_hook(self, v):
        if isinstance(v, RangeV):
            n = self.range_len(v)
            c = num_const(n)
            if c is not None and c <= 12:
                return SymIter([("c", [self.addi(v.lo, j * v.step) for j in range(int(c))])])
            return SymIter([("f", Fam(n, lambda i: [(True, z3.simplify(I_(v.lo) + I_(i)))], True))])
        if isinstance(v, str):
            return SymIter([("c", list(v))])
        return self.pd.iter_hook(v)

    # ------------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        if isinstance(a, (Opt, Union)):
            a = self.I.force(a)
        if isinstance(b, (Opt, Union)):
            b = self.I.force(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = self.np.settle(a), self.np.settle(b)
            if not isinstance(a, (ListV, TupleV)) and not isinstance(b, (ListV, TupleV)):
                return self.np.ew(lambda x, y: self.binop(op, x, y), a, b)
            return self.np.ew(lambda x, y: self.binop(op, x, y), self.np.asarray(a), self.np.asarray(b))
        if isinstance(op, ast.Add):
            if is_strv(a) and is_strv(b):
                return self.mkrope([a, b])
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(flatten([a.c, b.c]))
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
        if isinstance(op, ast.Mult):
            if is_strv(a) and is_int(b):
                return self.strrep(a, b)
            if is_strv(b) and is_int(a):
                return self.strrep(b, a)
            if isinstance(a, ListV) and is_int(b):
                n = num_const(b)
                if n is not None:
                    return ListV(flatten([a.c] * int(n)))
                if isinstance(a.c, Conc) and len(a.c.items) == 1:
                    x = a.c.items[0]
                    return ListV(Fam(If(I(b) > 0, I(b), z3.IntVal(0)), lambda i: [(True, x)], True))
        if isinstance(op, ast.Mod) and is_strv(a):
            return self.percent(a, b)
        if isinstance(op, ast.BitOr):
            if isinstance(a, DictV):
                d = DictV(a.c)
                self.dict_update(d, b)
                return d
            if isinstance(a, SetV):
                return SetV(flatten([a.c, b.c]))
            if is_bool(a) and is_bool(b):
                return Or(B(a), B(b))
            if isinstance(a, (ClassV, ExtFn, Builtin, TupleV)):
                return TupleV((list(a.items) if isinstance(a, TupleV) else [a]) + (list(b.items) if isinstance(b, TupleV) else [b]))
        if isinstance(op, ast.BitAnd) and is_bool(a) and is_bool(b):
            return And(B(a), B(b))
        if isinstance(op, ast.Sub) and isinstance(a, SetV):
            c = a.c
            parts = []
            for kind, p in content_parts(self.I, c):
                if kind == "c":
                    for x in p:
                        parts.append(Fam(1, (lambda x: lambda i: [(Not(B(self.contains(b, x))), x)])(x)))
                else:
                    parts.append(Fam(p.n, (lambda p: lambda i: [(And(B(g), Not(B(self.contains(b, v)))), v) for g, v in p.items(i)])(p)))
            return SetV(flatten(parts))
        if is_bool(a):
            a = int(a) if isinstance(a, bool) else I(a)
        if is_bool(b):
            b = int(b) if isinstance(b, bool) else I(b)
        if a is None or b is None:
            raise PyRaise("TypeError", "arithmetic on None")
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        raise Unsupported(f"{type(op).__name__} on {type(a).__name__}, {type(b).__name__}")

    def arith(self, op, a, b):
        if isinf(a) or isinf(b):
            return self.inf_arith(op, a, b)
        ii = is_int(a) and is_int(b)
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.FloorDiv) and b != 0:
                return a // b
            if isinstance(op, ast.Mod) and b != 0:
                return a % b
            if isinstance(op, ast.Pow) and b >= 0:
                return a ** b
            if isinstance(op, ast.BitAnd):
                return a & b
        if isinstance(op, ast.Add):
            return z3.simplify(I(a) + I(b)) if ii else rd.arith(R(a) + R(b))
        if isinstance(op, ast.Sub):
            return z3.simplify(I(a) - I(b)) if ii else rd.arith(R(a) - R(b))
        if isinstance(op, ast.Mult):
            return z3.simplify(I(a) * I(b)) if ii else rd.arith(R(a) * R(b))
        if isinstance(op, ast.Div):
            return self.div(a, b)
        if isinstance(op, ast.Pow):
            if ii and num_const(b) is not None and num_const(b) >= 0:
                r = I(a)
                out = z3.IntVal(1)
                for _ in range(int(num_const(b))):
                    out = out * r
                return out
            return rd.POW(a, b)
        if isinstance(op, ast.FloorDiv):
            if ii:
                c = num_const(b)
                if c is not None and c > 0:
                    return I(a) / I(b)
                if ctx.entails(I(b) > 0, 500):
                    return I(a) / I(b)
                raise Unsupported("floor division by a possibly negative number")
            return z3.ToReal(z3.ToInt(R(a) / R(b)))
        if isinstance(op, ast.Mod):
            if ii:
                c = num_const(b)
                if ctx.spec or (c is not None and c > 0) or ctx.entails(I(b) > 0, 500):
                    return I(a) % I(b)
                raise Unsupported("modulo by a possibly negative number")
    
        raise Unsupported(f"arithmetic {type(op).__name__}")

    def div(self, a, b):
        c = num_const(b)
        if c == 0:
            raise PyRaise("ZeroDivisionError")
        return rd.arith(R(a) / R(b))

    def inf_arith(self, op, a, b):
        if isinf(a) and isinf(b):
            raise Unsupported("arithmetic on infinities")
        if isinstance(op, ast.Add):
            return a if isinf(a) else b
        if isinstance(op, ast.Sub):
            return a if isinf(a) else -b
        if isinstance(op, ast.Mult):
            x, i = (b, a) if isinf(a) else (a, b)
            c = num_const(x)
            if c:
                return i if c > 0 else -i
        raise Unsupported("arithmetic on infinities")

    # ------------------------------------------------------------------ strings
    def mkrope(self, parts):
        r = Rope(parts)
        if not r.parts:
            return ""
        if len(r.parts) == 1 and (isinstance(r.parts[0], str) or (is_z3(r.parts[0]) and r.parts[0].sort() == Str)):
            return r.parts[0]
        return r

    def fmt(self, x, spec, conv=None):
        if isinstance(x, (Opt, Union)):
            x = self.I.force(x)
        if isinstance(x, str):
            if spec:
                return FmtPart(spec, x) if not x.isdigit() else format(x, spec)
            return x
        if isinstance(x, Rope) or (is_z3(x) and x.sort() == Str):
            if spec:
                return FmtPart(spec, S(x))
            return x
        if isinstance(x, bool) or x is None:
            return str(x)
        if isinstance(x, int):
            return format(x, spec)
        if is_num(x) or is_bool(x):
            if isinf(x):
                return format(x, spec)
            if is_int(x):
                c = num_const(x)
                if c is not None:
                    return format(int(c), spec)
            return FmtPart(spec, x if is_z3(x) else R(x))
        if isinstance(x, EnumV):
            return f"{x.cls}.{x.name}"
        if isinstance(x, (Opaque, ClassV, ListV, DictV, Arr)):
            return z3.Const(f"str_of!{next(ctx.counter)}", Str)
        raise Unsupported(f"formatting {type(x).__name__}")

    def strrep(self, a, n):
        c = num_const(n)
        if c is not None:
            if isinstance(a, str):
                return a * int(c)
            return self.mkrope([a] * int(c))
        if not isinstance(a, str):
            raise Unsupported("repetition of symbolic text")
        return Rope([RepPart(a, If(I(n) > 0, I(n), z3.IntVal(0)))])

    def percent(self, a, b):
        args = list(b.items) if isinstance(b, TupleV) else [b]
        parts = list(a.parts) if isinstance(a, Rope) else [a]
        out = []
        import re

        for p in parts:
            if isinstance(p, str):
                pos = 0
                for m in re.finditer(r"%(%|[-+ 0#]*\d*(?:\.\d+)?[sdfeg])", p):
                    out.append(p[pos:m.start()])
                    pos = m.end()
                    if m.group(0) == "%%":
                        out.append("%")
                        continue
                    if not args:
                        raise PyRaise("TypeError", "not enough arguments for format string")
                    x = args.pop(0)
                    sp = m.group(1)
                    if sp == "s":
                        out.append(self.fmt(x, ""))
                    elif sp.endswith("d"):
                        if is_z3(x) and is_real(x):
                            x = self.to_int(x)
                        out.append(self.fmt(x, sp[:-1] + "d") if len(sp) > 1 else self.fmt(x, "d" if not isinstance(x, int) else ""))
                    elif sp.endswith("s"):
                        out.append(FmtPart("%" + sp, S(x)) if not isinstance(x, str) else ("%" + sp) % x)
                    else:
                        x2 = self.I.force(x)
                        c = num_const(x2) if not isinf(x2) else None
                        out.append(FmtPart("%" + sp, x2 if is_z3(x2) else R(x2)))
                rest = p[pos:]
                if "%" in rest:
                    raise PyRaise("ValueError", "bad format")
                out.append(rest)
            elif isinstance(p, EscPart):
                out.append(p.text)
            elif isinstance(p, (FmtPart, RepPart)):
                if isinstance(p, RepPart) and "%" in p.text:
                    raise Unsupported("format directives in repeated text")
                out.append(p)
            elif isinstance(p, FamPart) or is_z3(p):
                # symbolic text inside a format string: any % in it would be a directive
                raise Unsupported("symbolic text inside a % format string")
            else:
                raise Unsupported("format string")
        if args:
            raise PyRaise("TypeError", "not all arguments converted during string formatting")
        return self.mkrope(out)

    def to_int(self, x):
        """int(x): truncation"""
        if isinstance(x, bool):
            return int(x)
        if is_int(x):
            return x
        if is_bool(x):
            return I(x)
        if isinf(x):
            raise PyRaise("OverflowError")
        if is_num(x):
            x = R(x)
            c = num_const(x)
            if c is not None:
                return int(c)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                return x.arg(0)
            f = z3.ToInt(x)
            if conc_bool(z3.simplify(x >= 0)) is True or ctx.entails(x >= 0, 300):
                return f
            return z3.If(x >= 0, f, -z3.ToInt(-x))
        if isinstance(x, str):
            return int(x)
        raise Unsupported(f"int() of {type(x).__name__}")

    # ------------------------------------------------------------------ items
    def getitem(self, o, ix):
        if isinstance(ix, (Opt, Union)):
            ix = self.I.force(ix)
        if isinstance(o, DictV):
            has, val = self.dict_find(o, ix)
            hb = conc_bool(has if isinstance(has, bool) else z3.simplify(has))
            if hb is None:
                if ctx.spec:
                    return val
                hb = self.I.decide(has)
            if not hb:
                raise PyRaise("KeyError")
            return val
        if isinstance(o, TupleV):
            if isinstance(ix, tuple) and ix and ix[0] == "slice":
                return TupleV(o.items[slice(*[None if x is None else int(num_const(x)) for x in ix[1:]])])
            n = num_const(ix)
            if n is None:
                return self.content_item(Conc(o.items), self.norm_index(ix, len(o.items)))
            try:
                return o.items[int(n)]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(o, ListV):
            if isinstance(ix, tuple) and ix and ix[0] == "slice":
                return ListV(self.content_slice(o.c, ix))
            if isinstance(o.c, Marker):
                raise Unsupported("read of a list being built")
            n = self.content_len(o.c)
            return self.content_item(o.c, self.norm_index(ix, n, check=not ctx.spec))
        if isinstance(o, Arr):
            return self.np.getitem(o, ix)
        if isinstance(o, str):
            if isinstance(ix, tuple) and ix and ix[0] == "slice":
                return o[slice(*[None if x is None else int(num_const(x)) for x in ix[1:]])]
            return o[int(num_const(ix))]
        if is_strv(o):
            return self.str_slice(o, ix)
        r = self.pd.getitem(o, ix)
        if r is not NotImplemented:
            return r
        if isinstance(o, Opaque):
            return self.ob.opaque_item(o, ix)
        if isinstance(o, ClassV) or isinstance(o, ExtFn) or isinstance(o, Builtin):
            return o  # generic alias such as list[int]
        raise Unsupported(f"subscript of {type(o).__name__}")

    def str_slice(self, o, ix):
        if isinstance(ix, tuple) and ix and ix[0] == "slice":
            _, lo, hi, st = ix
            if st is None and hi is None and num_const(lo) is not None:
                return z3.Function(f"str_from{int(num_const(lo))}", Str, Str)(S(o))
            if st is None and lo is None and num_const(hi) is not None:
                return z3.Function(f"str_to{int(num_const(hi))}", Str, Str)(S(o))
            if st is None and num_const(lo) is not None and num_const(hi) is not None:
                return z3.Function(f"str_sub{int(num_const(lo))}_{int(num_const(hi))}", Str, Str)(S(o))
        raise Unsupported("text subscript")

    def slice_bounds(self, ix, n):
        _, lo, hi, st = ix
        if st is not None and num_const(st) != 1:
            return None
        nt = I_(n)

        def norm(x, default):
            if x is None:
                return default
            if is_real(x):
                raise PyRaise("TypeError")
            c = num_const(x)
            if c is not None and isinstance(n, int):
                c = int(c)
                return max(0, min(n, c + n if c < 0 else c))
            if c is not None:
                c = int(c)
                if c >= 0:
                    t = z3.IntVal(c)
                    if c == 0:
                        return 0
                    return t if ctx.entails(nt >= c, 300) else z3.If(nt < c, nt, t)
                t = nt + c
                return t if ctx.entails(t >= 0, 300) else z3.If(t < 0, z3.IntVal(0), t)
            x = I(x)
            if ctx.entails(And(0 <= x, x <= nt), 500):
                return x
            if ctx.entails(And(-nt <= x, x < 0), 300):
                return x + nt
            y = z3.If(x < 0, x + nt, x)
            return z3.If(y < 0, z3.IntVal(0), z3.If(y > nt, nt, y))

        a, b = norm(lo, 0), norm(hi, n)
        if isinstance(a, int) and isinstance(b, int):
            return a, max(0, b - a)
        m = z3.simplify(I_(b) - I_(a))
        if conc_bool(z3.simplify(m >= 0)) is not True and not ctx.entails(m >= 0, 300):
            m = z3.If(m > 0, m, z3.IntVal(0))
        return a, m

    def content_slice(self, c, ix):
        if isinstance(c, Conc):
            ss = [None if x is None else num_const(x) for x in ix[1:]]
            if all(x is None or y is not None for x, y in zip(ix[1:], ss)):
                return Conc(c.items[slice(*[None if y is None else int(y) for y in ss])])
        n = self.content_len(c)
        if ix[3] is not None and num_const(ix[3]) == -1 and ix[1] is None and ix[2] is None:
            return Fam(n, lambda i: [(True, self.content_item(c, z3.simplify(I_(n) - 1 - I_(i))))], True)
        sb = self.slice_bounds(ix, n)
        if sb is None:
            raise Unsupported("list slice with a step")
        a, m = sb
        if isinstance(c, Cat) and isinstance(m, int):
            pass
        return Fam(m, lambda i: [(True, self.content_item(c, self.addi(i, a)))], True)

    def setitem(self, o, ix, v):
        if isinstance(o, DictV):
            return self.dict_set(o, ix, v)
        if isinstance(o, ListV):
            n = self.content_len(o.c)
            j = self.norm_index(ix, n)
            if isinstance(o.c, Conc) and isinstance(j, int):
                its = list(o.c.items)
                its[j] = v
                o.c = Conc(its)
                return
            c = o.c
            o.c = Fam(n, lambda i: [(True, merge([(I_(i) == I_(j), v), (I_(i) != I_(j), self.content_item(c, i))]))], True)
            return
        if isinstance(o, Arr):
            return self.np.setitem(o, ix, v)
        if self.pd.setitem(o, ix, v):
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def delitem(self, o, ix):
        o = self.I.force(o)
        if isinstance(o, DictV):
            has, _ = self.dict_find(o, ix)
            if not self.I.decide(B(has)):
                raise PyRaise("KeyError")
            self.dict_del(o, ix)
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------------ forwarding
    def amap(self, f, v):
        return self.np.map(f, v)

    def arr_row(self, v, i):
        return self.np.row(v, i)

    def attr(self, o, name):
        return self.ob.attr(o, name)

    def modattr(self, o, name):
        return self.ob.modattr(o, name)

    def extcall(self, path, args, kwargs):
        return self.ob.extcall(path, args, kwargs)

    def construct(self, cls, args, kwargs):
        return self.ob.construct(cls, args, kwargs)

    def class_builtin(self, c, name):
        return self.ob.class_builtin(c, name)

    def obj_builtin(self, o, name):
        return self.ob.obj_builtin(o, name)

    def sym_field(self, o, name):
        return self.ob.sym_field(o, name)

    def super_call(self, o, name, a, k):
        return self.ob.super_call(o, name, a, k)

    def opaque_truth(self, v):
        return True

    def opaque_call(self, f, a, k):
        return self.ob.opaque_call(f, a, k)

    def opaque_setattr(self, o, name, v):
        o.attrs[name] = v

    def method(self, o, name, a, k):
        return self.ob.method(o, name, a, k)

    def make_generator(self, f, env):
        return self.ob.make_generator(f, env)

    # ------------------------------------------------------------------ builtins
    def builtin(self, name):
        if name in self.spec_builtins and ctx.spec:
            return Builtin(name, self.spec_builtins[name])
        m = getattr(self, "b_" + name, None)
        if m is not None:
            return Builtin(name, m)
        if name in ("ValueError", "KeyError", "TypeError", "AssertionError", "Exception", "IndexError", "RuntimeError",
                    "UserWarning", "NotImplementedError", "AttributeError", "StopIteration", "DeprecationWarning", "object",
                    "property", "super", "staticmethod", "classmethod"):
            return ExtFn("builtins." + name)
        if name == "__name__":
            return "chainconsumer"
        if name in self.spec_builtins:
            return Builtin(name, self.spec_builtins[name])
        return None

    def b_len(self, v):
        return self.length(self.I.force(v))

    def b_range(self, a, b=None, c=1):
        a = self.I.force(a)
        b = self.I.force(b) if b is not None else None
        if b is None:
            a, b = 0, a
        return RangeV(a, b, c)

    def parts_map(self, v, fn, off0=0):
        """SymIter with elements transformed by fn(index, value)"""
        it = toiter(self.I, v)
        out, off = [], off0
        for kind, p in it.parts:
            if kind == "c":
                out.append(("c", [fn(self.addi(off, j), x) for j, x in enumerate(p)]))
                off = self.addi(off, len(p))
            else:
                if not p.plain:
                    its = p.items(z3.Int("probe"))
                    if len(its) == 1:
                        _, _, rk = rd.NZ(lambda i: B(p.items(i)[0][0]), p.n)
                        cnt = rd.NZ(lambda i: B(p.items(i)[0][0]), p.n)[0]
                        out.append(("f", Fam(p.n, (lambda p, rk, off: lambda i: [(p.items(i)[0][0], fn(self.addi(rk(I_(i)), off), p.items(i)[0][1]))])(p, rk, off), False)))
                        off = self.addi(off, cnt)
                        continue
                    raise Unsupported("enumeration of a multi item family")
                out.append(("f", Fam(p.n, (lambda p, off: lambda i: [(True, fn(z3.simplify(I_(i) + I_(off)), p.items(i)[0][1]))])(p, off), True)))
                off = self.addi(off, p.n)
        return SymIter(out)

    def b_enumerate(self, v, start=0):
        return self.parts_map(v, lambda i, x: TupleV([i, x]), start)

    def b_zip(self, *vs, strict=False):
        its = [toiter(self.I, v) for v in vs]
        if all(it.concrete for it in its):
            ls = [it.items() for it in its]
            if strict is True and len({len(l) for l in ls}) > 1:
                raise PyRaise("ValueError")
            return SymIter([("c", [TupleV(t) for t in zip(*ls)])])
        if any(len([p for p in it.parts if not (p[0] == "c" and not p[1])]) > 1 for it in its):
            seqs = []
            for it in its:
                seqs.append(flatten([Conc(p) if k == "c" else p for k, p in it.parts]))
            lens = [self.content_len(c) for c in seqs]
            n = self.min_len(lens)
            return SymIter([("f", Fam(n, lambda i: [(True, TupleV([self.content_item(c, i) for c in seqs]))], True))])
        seqs = []
        for it in its:
            ps = [p for p in it.parts if not (p[0] == "c" and not p[1])]
            if not ps:
                return SymIter([("c", [])])
            k, p = ps[0]
            seqs.append(Conc(p) if k == "c" else p)
        lens = [self.content_len(c) for c in seqs]
        n = self.min_len(lens)
        cn = num_const(n)
        if cn is not None and cn <= 12:
            return SymIter([("c", [TupleV([self.content_item(c, i) for c in seqs]) for i in range(int(cn))])])
        return SymIter([("f", Fam(n, lambda i: [(True, TupleV([self.content_item(c, i) for c in seqs]))], True))])

    def min_len(self, lens):
        n = lens[0]
        for m in lens[1:]:
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
                continue
            a, b = I_(n), I_(m)
            if a.eq(b) or ctx.entails(a == b, 500):
                # prefer the concrete or simpler one
                n = n if isinstance(n, int) else (m if isinstance(m, int) else n)
            elif ctx.entails(a <= b, 300):
                pass
            elif ctx.entails(b <= a, 300):
                n = m
            else:
                n = z3.If(a <= b, a, b)
        return n

    def b_list(self, v=None):
        if v is None:
            return ListV(Conc([]))
        return ListV(self.content_of(v))

    def b_tuple(self, v=None):
        if v is None:
            return TupleV([])
        c = self.content_of(v)
        if isinstance(c, Conc):
            return TupleV(c.items)
        return ListV(c)

    def b_set(self, v=None):
        if v is None:
            return SetV(Conc([]))
        c = self.content_of(v)
        if isinstance(c, Conc):
            # drop syntactic duplicates
            out = []
            for x in c.items:
                if not any(conc_bool(e if isinstance(e, bool) else z3.simplify(e)) is True for e in [self.eq(x, y) for y in out]):
                    out.append(x)
            if len(out) > 1 and any(conc_bool(e if isinstance(e, bool) else z3.simplify(e)) is None for j, x in enumerate(out) for e in [self.eq(x, y) for y in out[:j]]):
                res = []
                for x in out:
                    if not any(self.I.decide(B(self.eq(x, y))) for y in res):
                        res.append(x)
                out = res
            return SetV(Conc(out))
        k = z3.Int("probe")
        if isinstance(c, Fam):
            its = c.items(k)
            if len(its) == 1 and is_bool(its[0][1]):
                # set of booleans: which of True / False occur
                f = c
                ht = rd.EXISTS(lambda i: And(B(f.items(i)[0][0]), B(f.items(i)[0][1])), f.n)
                hf = rd.EXISTS(lambda i: And(B(f.items(i)[0][0]), Not(B(f.items(i)[0][1]))), f.n)
                items = []
                if self.I.decide(ht):
                    items.append(True)
                if self.I.decide(hf):
                    items.append(False)
                return SetV(Conc(items))
        return SetV(Uniq(c))

    def b_dict(self, v=None, **kw):
        d = DictV(DConc([]))
        if v is not None:
            v = self.I.force(v)
            if isinstance(v, DictV):
                d.c = v.c
            else:
                for kind, p in toiter(self.I, v).parts:
                    if kind == "c":
                        for t in p:
                            a, b = self.I.unpack(t, 2)
                            self.dict_set(d, a, b)
                    else:
                        key = lambda i: p.items(i)[0][1].items[0]
                        val = lambda i: p.items(i)[0][1].items[1]
                        grd = lambda i: p.items(i)[0][0]
                        if not injective(self.I, p.n, key, grd):
                            raise Unsupported("dict() with possibly repeated keys")
                        new = DFam(p.n, key, val, grd, object())
                        d.c = new if isinstance(d.c, DConc) and not d.c.items else DLayers([d.c, new])
        for k, x in kw.items():
            self.dict_set(d, k, x)
        return d

    def b_str(self, v=""):
        r = self.fmt(v, "")
        return self.mkrope([r]) if isinstance(r, FmtPart) else r

    def b_repr(self, v):
        return self.b_str(v)

    def b_int(self, v=0, base=10):
        v = self.I.force(v)
        if isinstance(v, str):
            return int(v, base)
        if is_strv(v):
            return z3.Function(f"int_base{base}", Str, Int)(S(v))
        if isinstance(v, Arr):
            v = self.np.scalar(v)
        return self.to_int(v)

    def b_float(self, v=0.0):
        v = self.I.force(v)
        if isinstance(v, str):
            if v.strip().lower() in ("inf", "+inf", "infinity"):
                return INF
            if v.strip().lower() in ("-inf",):
                return -INF
            return rat(float(v))
        if isinf(v):
            return v
        if isinstance(v, Arr):
            v = self.np.scalar(v)
        if v is None:
            raise PyRaise("TypeError")
        if is_num(v) or is_bool(v):
            return R(v)
        raise Unsupported(f"float() of {type(v).__name__}")

    def b_bool(self, v=False):
        v2 = self.I.truth_term(v)
        return v2

    def b_abs(self, v):
        return self.np.abs1(self.I.force(v))

    def b_round(self, v, n=None):
        v = self.I.force(v)
        if n is None:
            f = z3.Function("round_int", Real, Int)
            ctx.assume(And(R(f(R(v))) - R(v) <= rat(0.5), R(v) - R(f(R(v))) <= rat(0.5)))
            return f(R(v))
        n = self.I.force(n)
        c = num_const(n)
        if c is None:
            raise Unsupported("round to a symbolic number of digits")
        return self.np.round1(v, int(c))

    def minmax(self, which, args, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max with a key")
        if len(args) == 1:
            v = self.I.force(args[0])
            it = toiter(self.I, v)
            if it.concrete:
                vals = it.items()
                if not vals:
                    if default is not None:
                        return default
                    raise PyRaise("ValueError")
            else:
                ps = [p for p in it.parts if not (p[0] == "c" and not p[1])]
                res = None
                n = 0
                for kind, p in it.parts:
                    n = self.addi(n, len(p) if kind == "c" else self.content_len(p))
                if not ctx.spec and not self.I.decide(I_(n) > 0):
                    if default is not None:
                        return default
                    raise PyRaise("ValueError", "min/max of an empty sequence")
                cands = []
                for kind, p in ps:
                    if kind == "c":
                        cands.extend(("v", x) for x in p)
                    else:
                        its = p.items(z3.Int("probe"))
                        if len(its) != 1:
                            raise Unsupported("min/max of multi item family")
                        m, _ = rd.EXT("MAX" if which == "max" else "MIN", lambda i: R(p.items(i)[0][1]), p.n, lambda i: B(p.items(i)[0][0]))
                        isint = is_int(its[0][1])
                        if isint:
                            m = z3.ToInt(m)
                        cands.append(("f", m))
                if len(cands) == 1:
                    return cands[0][1]
                raise Unsupported("min/max of a composite sequence")
        else:
            vals = [self.I.force(a) for a in args]
        r = vals[0]
        for x in vals[1:]:
            r = self.pick(which, r, x)
        return r

    def pick(self, which, a, b):
        if isinf(a) or isinf(b):
            if isinf(a) and isinf(b):
                return max(a, b) if which == "max" else min(a, b)
            i, x = (a, b) if isinf(a) else (b, a)
            return (i if i > 0 else x) if which == "max" else (x if i > 0 else i)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return max(a, b) if which == "max" else min(a, b)
        if a is None or b is None:
            raise PyRaise("TypeError")
        if is_strv(a) or is_strv(b):
            raise Unsupported("min/max of text")
        c = self.order(">" if which == "max" else "<", b, a)
        if is_int(a) and is_int(b):
            return If(c, I(b), I(a))
        return If(c, R(b), R(a))

    def b_min(self, *a, key=None, default=None):
        return self.minmax("min", a, key, default)

    def b_max(self, *a, key=None, default=None):
        return self.minmax("max", a, key, default)

    def b_sum(self, v, start=0):
        it = toiter(self.I, v)
        tot = start
        for kind, p in it.parts:
            if kind == "c":
                for x in p:
                    tot = self.binop(ast.Add(), tot, x)
            else:
                its = p.items(z3.Int("probe"))
                s = rd.SUM(lambda i: z3.Sum([If(B(g), R(v), z3.RealVal(0)) for g, v in p.items(i)]) if not p.plain else R(p.items(i)[0][1]), p.n)
                if all(is_int(v) or is_bool(v) for _, v in its):
                    s = z3.ToInt(s)
                tot = self.binop(ast.Add(), tot, s)
        return tot

    def quant(self, v, conj):
        it = toiter(self.I, v)
        out = []
        for kind, p in it.parts:
            if kind == "c":
                for x in p:
                    t = self.I.truth_term(x)
                    out.append(t)
            else:
                if conj:
                    out.append(rd.FORALL(lambda i: And(*[Implies(B(g), B(self.I.truth_term(x))) for g, x in p.items(i)]), p.n))
                else:
                    out.append(rd.EXISTS(lambda i: Or(*[And(B(g), B(self.I.truth_term(x))) for g, x in p.items(i)]), p.n))
        return self.conj(out) if conj else self.disj(out)

    def b_all(self, v):
        v = self.I.force(v)
        if isinstance(v, Arr):
            return self.np.red("all", v, None)
        return self.quant(v, True)

    def b_any(self, v):
        v = self.I.force(v)
        if isinstance(v, Arr):
            return self.np.red("any", v, None)
        return self.quant(v, False)

    def b_sorted(self, v, key=None, reverse=False):
        it = toiter(self.I, v)
        if it.concrete and key is None and all(isinstance(x, (str, int)) for x in it.items()):
            return ListV(Conc(sorted(it.items(), reverse=bool(reverse))))
        raise Unsupported("sorted")

    def b_reversed(self, v):
        v = self.I.force(v)
        c = self.content_of(v)
        if isinstance(c, Conc):
            return ListV(Conc(c.items[::-1]))
        return ListV(self.content_slice(c, ("slice", None, None, -1)))

    def b_map(self, f, v):
        out = []
        for kind, p in toiter(self.I, v).parts:
            if kind == "c":
                out.append(Conc([self.I.call(f, [x], {}) for x in p]))
            else:
                from .loops import fam_comp
                out.append(fam_comp(self.I, p, lambda x: self.I.call(f, [x], {}), False))
        return ListV(flatten(out))

    def b_iter(self, v):
        return ("iter", v)

    def b_next(self, v, default=None):
        if isinstance(v, tuple) and v and v[0] == "iter":
            c = self.content_of(v[1])
            n = self.content_len(c)
            if not self.I.decide(I_(n) > 0):
                raise PyRaise("StopIteration")
            return self.content_item(c, 0)
        r = self.ob.gen_next(v)
        if r is not NotImplemented:
            return r
        if isinstance(v, ListV):
            c = v.c
            n = self.content_len(c)
            if not self.I.decide(I_(n) > 0):
                if default is not None:
                    return default
                raise PyRaise("StopIteration")
            return self.content_item(c, 0)
        raise Unsupported("next")

    def b_isinstance(self, v, t):
        if isinstance(t, TupleV):
            return self.disj([self.b_isinstance(v, x) for x in t.items])
        if isinstance(v, Opt):
            r = self.b_isinstance(v.val, t)
            return And(Not(v.none), B(r))
        if isinstance(v, Union):
            return Or(*[And(c, B(self.b_isinstance(x, t))) for c, x in v.alts])
        return self.ob.isinstance1(v, t)

    def b_getattr(self, o, name, *d):
        if not isinstance(name, str):
            return self.ob.getattr_sym(o, name)
        try:
            return self.I.getattr(o, name)
        except PyRaise:
            if d:
                return d[0]
            raise

    def b_setattr(self, o, name, v):
        if not isinstance(name, str):
            return self.ob.setattr_sym(o, name, v)
        self.I.setattr(o, name, v)

    def b_hasattr(self, o, name):
        try:
            self.I.getattr(o, name)
            return True
        except PyRaise:
            return False

    def b_print(self, *a, **k):
        return None

    def b_type(self, v):
        v = self.I.force(v)
        if isinstance(v, Obj):
            return v.cls
        return Opaque("type")

    def b_id(self, v):
        raise Unsupported("id")

    def b_callable(self, v):
        return isinstance(v, (FuncV, BoundV, Builtin))


class EscPart:
    """text whose % were doubled (a format string that reproduces text)"""

    def __init__(self, text):
        self.text = text

    def subst(self, pairs):
        return EscPart(subst_value(self.text, pairs))


class MarkerMember(Unsupported):
    def __init__(self, marker, x):
        super().__init__("membership test on a container being built")
        self.marker, self.x = marker, x
