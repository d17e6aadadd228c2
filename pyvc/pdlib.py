"""Models of pandas DataFrame (numeric columns named by strings) and Series."""
from __future__ import annotations

import z3

from . import reduce as rd
from .core import *  # noqa
from .interp import SymIter
from .loops import I_, content_parts


class DFC:
    """content: n rows, column sequence content, has(c), cell(c, i), label(i), fin(c, i) or None"""

    def __init__(self, n, cols, has, cell, label=None, fin=None):
        self.n, self.cols, self.has, self.cell, self.label, self.fin = n, cols, has, cell, label, fin


class DF(Mut):
    def __init__(self, content, frozen=False):
        super().__init__(content)
        self.frozen = frozen

    def subst(self, pairs):
        c = self.c
        f = lambda fn: None if fn is None else (lambda *a: subst_value(fn(*a), pairs))
        return DF(DFC(subst_value(c.n, pairs), subst_content(c.cols, pairs), f(c.has), f(c.cell), f(c.label), f(c.fin)), self.frozen)


class RowV:
    def __init__(self, content, i):
        self.content, self.i = content, i

    def subst(self, pairs):
        return RowV(DF(self.content).subst(pairs).c, subst_value(self.i, pairs))


class ILoc:
    def __init__(self, o, kind):
        self.o, self.kind = o, kind


def sym_df(name, args, finite=True):
    """symbolic dataframe whose parts are uninterpreted functions of args"""
    ss = [a.sort() for a in args]
    F = lambda nm, *rest: z3.Function(f"{name}.{nm}", *ss, *rest)
    n, nc, col, cidx, cell, lab = (F("nrows", Int), F("ncols", Int), F("col", Int, Str), F("cidx", Str, Int),
                                   F("cell", Str, Int, Real), F("label", Int, Int))
    vs = [z3.Const(f"@d{i}", s) for i, s in enumerate(ss)]
    j = z3.Int("@dj")

    def q(body, extra, pats):
        al = vs + extra
        return z3.ForAll(al, body, patterns=pats) if al else body

    axsym(n.name(), [q(n(*vs) >= 0, [], [n(*vs)])])
    axsym(nc.name(), [q(nc(*vs) >= 0, [], [nc(*vs)])])
    axsym(col.name(), [q(z3.Implies(z3.And(0 <= j, j < nc(*vs)), cidx(*vs, col(*vs, j)) == j), [j], [col(*vs, j)])])
    axsym(cidx.name(), [])
    N, NC = n(*args), nc(*args)
    has = lambda c: And(0 <= cidx(*args, S(c)), cidx(*args, S(c)) < NC, col(*args, cidx(*args, S(c))) == S(c))
    fin = None
    if not finite:
        fin_ = F("finite", Str, Int, Bool)
        fin = lambda c, i: fin_(*args, S(c), I(i))
    return DF(DFC(N, Fam(NC, lambda k: [(True, col(*args, I(k)))], True, ("cols", name)), has,
                  lambda c, i: cell(*args, S(c), I(i)), lambda i: lab(*args, I(i)), fin))


class PD:
    def __init__(self, lib):
        self.lib = lib

    # ---- hooks used by Lib
    def contains(self, c, x):
        if isinstance(c, DF):
            return c.c.has(x)
        if isinstance(c, RowV):
            return c.content.has(x)
        return None

    def length(self, v):
        if isinstance(v, DF):
            return v.c.n
        if isinstance(v, RowV):
            return self.lib.content_len(v.content.cols)
        return None

    def to_array(self, v):
        if isinstance(v, DF):
            c = v.c
            w = self.lib.content_len(c.cols)
            return Arr([c.n, w], lambda i, j: c.cell(self.lib.content_item(c.cols, j), i))
        if isinstance(v, RowV):
            c = v.content
            return Arr([self.lib.content_len(c.cols)], lambda j: c.cell(self.lib.content_item(c.cols, j), v.i))
        return None

    def iter_hook(self, v):
        if isinstance(v, DF):
            return SymIter(content_parts(self.lib.I, v.c.cols))
        return None

    def missing(self, has):
        if ctx.spec:
            return
        if not self.lib.I.decide(B(has)):
            raise PyRaise("KeyError")

    def column(self, d, c):
        s = Arr([d.n], lambda i: d.cell(c, i), series={"label": d.label, "name": c})
        if d.fin is not None:
            s.fin = lambda i: d.fin(c, i)
        return s

    def getitem(self, o, ix):
        L = self.lib
        if isinstance(o, DF):
            d = o.c
            if is_strv(ix):
                self.missing(d.has(ix))
                return self.column(d, ix)
            if isinstance(ix, (ListV, TupleV)):
                cont = ix.c if isinstance(ix, ListV) else Conc(ix.items)
                if not ctx.spec:
                    n = L.content_len(cont)
                    self.missing(rd.FORALL(lambda i: B(d.has(L.content_item(cont, i))), n))
                has = lambda c: L.content_has(cont, c)
                return DF(DFC(d.n, cont, has, d.cell, d.label, d.fin))
            if isinstance(ix, Arr) and ix.ndim == 1:
                cnt, nz, rk = rd.NZ(lambda i: B(ix.fn(i)), d.n)
                lab = d.label
                return DF(DFC(cnt, d.cols, d.has, lambda c, i: d.cell(c, nz(I(i))),
                              None if lab is None else (lambda i: lab(nz(I(i))))))
            raise Unsupported("dataframe selection")
        if isinstance(o, RowV):
            if is_strv(ix):
                self.missing(o.content.has(ix))
                return o.content.cell(ix, o.i)
            raise Unsupported("row selection")
        if isinstance(o, ILoc):
            return self.iloc(o, ix)
        return NotImplemented

    def iloc(self, l, ix):
        L = self.lib
        o = l.o
        if isinstance(o, DF):
            d = o.c
            if l.kind == "iloc":
                if is_num(ix):
                    i = L.norm_index(ix, d.n, check=not ctx.spec)
                    return RowV(d, I(i))
                if isinstance(ix, tuple) and ix and ix[0] == "slice":
                    lo, cnt = self.slice_range(ix, d.n)
                    lab = d.label
                    return DF(DFC(cnt, d.cols, d.has, lambda c, i: d.cell(c, I(lo) + I(i)),
                                  None if lab is None else (lambda i: lab(I(lo) + I(i)))))
            elif l.kind == "loc":
                if is_int(ix):
                    if d.label is None:
                        return RowV(d, I(ix))
                    pos = rd.FIRST(lambda i: d.label(i) == I(ix), d.n)
                    uniq = rd.FORALL(lambda i: Implies(d.label(i) == I(ix), I(i) == pos), d.n)
                    if not ctx.spec:
                        self.missing(rd.EXISTS(lambda i: d.label(i) == I(ix), d.n))
                        if not L.I.decide(uniq):
                            raise Unsupported("row label that is not unique")
                    return RowV(d, pos)
        if isinstance(o, Arr):
            if l.kind == "iloc":
                return L.np.getitem(o, ix)
        raise Unsupported(f"{l.kind} selection")

    def slice_range(self, ix, n):
        sb = self.lib.slice_bounds(ix, n)
        if sb is None:
            raise Unsupported("dataframe slice with a step")
        return sb

    def setitem(self, o, ix, v):
        if not isinstance(o, DF):
            return False
        L = self.lib
        if o.frozen:
            raise Unsupported("mutation of a dataframe reached through a symbolic object")
        d = o.c
        if not is_strv(ix):
            raise Unsupported("dataframe assignment")
        v = L.I.force(v)
        if is_num(v):
            val = R(v)
            fn = lambda i: val
        else:
            a = L.np.asarray(v)
            if a.ndim != 1:
                raise Unsupported("column of higher dimension")
            if not L.I.decide(B(L.eq(a.shape[0], d.n))):
                raise PyRaise("ValueError")
            fn = a.fn
        old = d.cell
        ofin = d.fin

        def cell(c, i):
            e = L.eq(c, ix)
            if isinstance(e, bool):
                return R(fn(i)) if e else old(c, i)
            return If(z3.simplify(B(e)), R(fn(i)), old(c, i))

        vfin = getattr(v, "fin", None) if isinstance(v, Arr) else None

        def fin(c, i):
            e = L.eq(c, ix)
            new = vfin(i) if vfin is not None else z3.BoolVal(True)
            if isinstance(e, bool):
                return new if e else ofin(c, i)
            return If(z3.simplify(B(e)), B(new), B(ofin(c, i)))

        had = L.I.decide(B(d.has(ix)))
        if had:
            cols, has = d.cols, d.has
        else:
            from .loops import cat

            cols = cat(d.cols, Conc([ix]))
            has = lambda c: Or(B(d.has(c)), B(L.eq(c, ix)))
        o.c = DFC(d.n, cols, has, cell, d.label, fin if ofin is not None else None)
        if had:
            o.c.upd = (d, ix, fn, vfin)
        return True

    # ---- loops that replace the column of each iteration
    def loop_inverse(self, fam, k, key, d):
        """the index of the iteration that writes a column: the loop runs over (some of) the table's columns, in their order"""
        its = fam.items(k)
        if len(its) != 1 or not (is_z3(its[0][1]) and its[0][1].eq(key) and z3.is_app(key)):
            return None
        dec = key.decl()
        if not dec.name().endswith(".col") or not key.num_args() or not key.arg(key.num_args() - 1).eq(k):
            return None
        args = key.children()[:-1]
        cidx = z3.Function(dec.name()[:-3] + "cidx", *[a.sort() for a in args], Str, Int)
        hit = lambda c: And(0 <= cidx(*args, S(c)), cidx(*args, S(c)) < I_(fam.n), dec(*args, cidx(*args, S(c))) == S(c),
                            subst_value(B(its[0][0]), [(k, cidx(*args, S(c)))]))
        return (lambda c: cidx(*args, S(c))), hit

    def loop_entry(self, d, k, inv):
        """content at the start of iteration k: the columns of earlier iterations hold unknown values"""
        ix, hit = inv
        nm = f"col~{next(ctx.counter)}"
        g = [x for x in ctx.generics if not x.eq(k)]
        f_ = z3.Function(nm, *[x.sort() for x in g], Str, Int, Real)
        fb_ = z3.Function(nm + "fin", *[x.sort() for x in g], Str, Int, Bool)
        f, fb = (lambda *a: f_(*g, *a)), (lambda *a: fb_(*g, *a))
        done = lambda c: z3.simplify(And(hit(c), ix(c) < k))
        cell = lambda c, i: If(done(c), f(S(c), I_(i)), d.cell(c, i))
        fin = None if d.fin is None else (lambda c, i: If(done(c), fb(S(c), I_(i)), B(d.fin(c, i))))
        return DFC(d.n, d.cols, d.has, cell, d.label, fin)

    def loop_exit(self, d, k, inv, upto, upd):
        """upd: [(path condition, value function, finiteness)] of iteration k"""
        ix, hit = inv

        def at(c, x):
            return subst_value(x, [(k, ix(c))])

        def cell(c, i):
            v = d.cell(c, i)
            for cnd, fn, _ in upd:
                v = If(z3.simplify(And(hit(c), ix(c) < I_(upto), at(c, B(cnd)))), at(c, R(fn(i))), v)
            return v

        def fin(c, i):
            v = B(d.fin(c, i))
            for cnd, _, vf in upd:
                v = If(z3.simplify(And(hit(c), ix(c) < I_(upto), at(c, B(cnd)))), at(c, B(vf(i))) if vf is not None else z3.BoolVal(True), v)
            return v

        return DFC(d.n, d.cols, d.has, cell, d.label, fin if d.fin is not None else None)

    # ---- methods and attributes
    def attr(self, o, name):
        L = self.lib
        if isinstance(o, DF):
            d = o.c
            if name == "columns":
                return ListV(d.cols, "index")
            if name == "shape":
                return TupleV([d.n, L.content_len(d.cols)])
            if name == "empty":
                return Or(I_(d.n) <= 0, I_(L.content_len(d.cols)) <= 0)
            if name in ("iloc", "loc"):
                return ILoc(o, name)
            if name == "values":
                return self.to_array(o)
            if name == "size":
                return I_(d.n) * I_(L.content_len(d.cols))
            if name == "index":
                if d.label is None:
                    return Arr([d.n], lambda i: I(i))
                return Arr([d.n], d.label)
            if name == "T":
                return L.attr(self.to_array(o), "T")
        if isinstance(o, RowV):
            if name == "index":
                return ListV(o.content.cols, "index")
            if name == "values":
                return self.to_array(o)
        return NotImplemented

    def method(self, o, name, a, k):
        L = self.lib
        if isinstance(o, DF):
            d = o.c
            if name == "copy":
                return DF(d)
            if name == "to_numpy":
                return self.to_array(o)
            if name == "reset_index":
                return DF(DFC(d.n, d.cols, d.has, d.cell, None, d.fin))
            if name == "keys":
                return ListV(d.cols, "index")
            if name in ("sum", "mean", "max", "min", "std", "var") and not a:
                kk = dict(k)
                kk.setdefault("axis", 0)
                if name in ("std", "var"):
                    kk.setdefault("ddof", 1)
                return L.np.call(name, [self.to_array(o)], kk)
            if name == "drop":
                cs = k.get("columns", a[0] if a else None)
                if "columns" not in k and k.get("axis") != 1:
                    raise Unsupported("drop rows")
                cs = L.I.force(cs)
                if is_strv(cs):
                    cs = ListV([cs])
                drop = L.content_of(cs)
                keep = lambda c: Not(B(L.content_has(drop, c)))
                cols = filter_content(L, d.cols, keep)
                return DF(DFC(d.n, cols, lambda c: And(B(d.has(c)), keep(c)), d.cell, d.label, d.fin))
        if isinstance(o, RowV):
            if name == "to_dict":
                d = o.content
                n = L.content_len(d.cols)
                i = o.i
                if isinstance(d.cols, Conc):
                    return DictV(DConc([(c, d.cell(c, i)) for c in d.cols.items]))
                if isinstance(d.cols, Cat) and all(isinstance(p, Conc) or isinstance(p, Fam) and p.plain for p in d.cols.parts):
                    # the columns of a table are pairwise distinct
                    lay = []
                    for p in d.cols.parts:
                        if isinstance(p, Conc):
                            lay.append(DConc([(c, d.cell(c, i)) for c in p.items]))
                        else:
                            lay.append(DFam(p.n, (lambda p: lambda j: p.items(j)[0][1])(p), (lambda p: lambda j: d.cell(p.items(j)[0][1], i))(p),
                                            lambda j: z3.BoolVal(True), tag=("row",)))
                    return DictV(DLayers(lay))
                return DictV(DFam(n, lambda j: L.content_item(d.cols, j), lambda j: d.cell(L.content_item(d.cols, j), i),
                                  lambda j: z3.BoolVal(True), tag=("row",)))
            if name in ("keys",):
                return ListV(o.content.cols, "index")
            if name == "items":
                return L.method(self.method(o, "to_dict", [], {}), "items", [], {})
            if name == "get":
                return L.method(self.method(o, "to_dict", [], {}), "get", a, k)
            if name == "to_numpy":
                return self.to_array(o)
            if name == "copy":
                return o
        return NotImplemented

    # ---- constructors
    def split(self, a, n):
        if not isinstance(a, DF):
            return None
        L = self.lib
        d = a.c
        if not L.I.decide(I_(n) > 0):
            raise PyRaise("ValueError")
        if not L.I.decide(I_(d.n) % I_(n) == 0):
            raise PyRaise("ValueError")
        m = z3.simplify(I_(d.n) / I_(n))
        lab = d.label

        def part(w):
            off = I_(w) * m
            return DF(DFC(m, d.cols, d.has, lambda c, i: d.cell(c, off + I(i)),
                          None if lab is None else (lambda i: lab(off + I(i)))))

        return ListV(Fam(n, lambda w: [(True, part(w))], True))

    def frame(self, data=None, columns=None, index=None, **k):
        L = self.lib
        data = L.I.force(data)
        if k:
            raise Unsupported(f"DataFrame({', '.join(k)})")
        if index is not None:
            if not isinstance(data, DictV) or columns is not None:
                raise Unsupported("DataFrame with an index")
            return self.from_scalars(data, L.content_of(L.I.force(index)))
        if isinstance(data, DF):
            d = data.c
            if columns is None:
                return DF(d)
            cont = L.content_of(L.I.force(columns))
            if cont is d.cols:
                return DF(d)
            n = L.content_len(cont)
            if not L.I.decide(rd.FORALL(lambda i: B(d.has(L.content_item(cont, i))), n)):
                raise Unsupported("reindexing with unknown columns")
            return DF(DFC(d.n, cont, lambda c: L.content_has(cont, c), d.cell, d.label, d.fin))
        if isinstance(data, DictV) and columns is None:
            return self.from_dict(data)
        a = L.np.asarray(data)
        if a.ndim == 2 and columns is not None:
            cont = L.content_of(L.I.force(columns))
            n = L.content_len(cont)
            if not L.I.decide(B(L.eq(n, a.shape[1]))):
                raise PyRaise("ValueError")
            pos = lambda c: rd.FIRST(lambda j: B(L.eq(L.content_item(cont, j), c)), n)
            if isinstance(cont, Conc):
                def cell(c, i):
                    for j, x in enumerate(cont.items):
                        if L.eq(x, c) is True:
                            return a.fn(I(i), I(j))
                    return merge([(And(*([Not(B(L.eq(y, c))) for y in cont.items[:j]] + ([B(L.eq(x, c))] if j < len(cont.items) - 1 else []))),
                                   a.fn(I(i), I(j))) for j, x in enumerate(cont.items)])
            else:
                cell = lambda c, i: a.fn(I(i), pos(c))
            return DF(DFC(a.shape[0], cont, lambda c: L.content_has(cont, c), cell))
        raise Unsupported("DataFrame construction")

    def from_scalars(self, data, index):
        """DataFrame({column: number}, index=[...]): every row holds the numbers"""
        L = self.lib
        keys = L.content_of(ListV(L.content_of(L.method(data, "keys", [], {}))))
        snap = DictV(data.c)
        n = L.content_len(index)

        def cell(c, i):
            ctx.spec += 1
            try:
                v = L.dict_find(snap, c)[1]
            finally:
                ctx.spec -= 1
            if not is_num(v):
                raise Unsupported("DataFrame of values that are not numbers")
            return R(v)

        return DF(DFC(n, keys, lambda c: L.content_has(keys, c), cell, lambda i: L.content_item(index, i)))

    def from_dict(self, data):
        L = self.lib
        data = L.I.force(data)
        if not isinstance(data, DictV):
            raise Unsupported("from_dict")
        keys = L.content_of(ListV(L.content_of(L.method(data, "keys", [], {}))))
        nk = L.content_len(keys)
        snap = DictV(data.c)
        if not L.I.decide(I_(nk) > 0):
            return DF(DFC(0, keys, lambda c: L.content_has(keys, c), lambda c, i: z3.RealVal(0)))

        def colarr(c):
            ctx.spec += 1
            try:
                v = L.dict_find(snap, c)[1]
            finally:
                ctx.spec -= 1
            return L.np.asarray(v)

        n = colarr(L.content_item(keys, 0)).shape[0]
        same = rd.FORALL(lambda j: B(L.eq(colarr(L.content_item(keys, j)).shape[0], n)), nk)
        if not L.I.decide(same):
            raise PyRaise("ValueError")
        return DF(DFC(n, keys, lambda c: L.content_has(keys, c), lambda c, i: R(colarr(c).fn(I(i)))))


def filter_content(L, c, keep):
    if isinstance(c, Conc):
        out = []
        for x in c.items:
            kx = keep(x)
            cb = conc_bool(kx if isinstance(kx, bool) else z3.simplify(kx))
            if cb is None:
                cb = L.I.decide(kx)
            if cb:
                out.append(x)
        return Conc(out)
    if isinstance(c, Cat):
        return Cat([filter_content(L, p, keep) for p in c.parts])
    if isinstance(c, Fam):
        return Fam(c.n, lambda i: [(And(B(g), B(keep(v))), v) for g, v in c.items(i)], False)
    raise Unsupported("filter of a sequence")
