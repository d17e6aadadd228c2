"""Models of numpy / scipy (floats as reals)."""
from __future__ import annotations

import ast
import itertools

import z3

from . import reduce as rd
from .core import *  # noqa
from .interp import INF, Builtin, ExtFn, SymIter
from .loops import I_, toiter

P0, P1 = ph(Int, 0), ph(Int, 1)


class LibSym(Symbol):
    """library function of array / scalar arguments; equal arguments give equal results"""

    layout = ()

    def congruence(self, o):
        p = [z3.Const(f"cp{i}", x.sort()) for i, x in enumerate(self.params)]
        q = [z3.Const(f"cq{i}", x.sort()) for i, x in enumerate(o.params)]
        sa = lambda e: subst(e, *zip(self.params, p))
        sb = lambda e: subst(e, *zip(o.params, q))
        differ = []
        pos = 0
        for j, l in enumerate(self.layout):
            if l == 0:
                differ.append(sa(self.bodies[pos]) != sb(o.bodies[pos]))
                pos += 1
            else:
                dims = self.bodies[pos:pos + l]
                odims = o.bodies[pos:pos + l]
                pos += l
                e, f = self.bodies[pos], o.bodies[pos]
                pos += 1
                for d, od in zip(dims, odims):
                    differ.append(sa(d) != sb(od))
                ws = []
                for t in range(l):
                    nm = f"w_{self.name}_{o.name}_{j}_{t}"
                    ws.append(z3.Function(nm, *[x.sort() for x in p + q], Int)(*p, *q) if p + q else z3.Int(nm))
                pl = [P0, P1][:l]
                differ.append(z3.And(*[z3.And(0 <= w, w < sa(d)) for w, d in zip(ws, dims)],
                                     subst(sa(e), *zip(pl, ws)) != subst(sb(f), *zip(pl, ws))))
        D = z3.Or(*differ) if differ else z3.BoolVal(False)
        out = []
        for j in range(len(self.sorts)):
            args = [z3.Const(f"ca{t}", s) for t, s in enumerate(self.sorts[j][0])]
            a = self.at(p, j)(*args) if args else self.at(p, j)
            b = o.at(q, j)(*args) if args else o.at(q, j)
            f = z3.Or(D, a == b)
            vs = p + q + args
            out.append(z3.ForAll(vs, f, patterns=[z3.MultiPattern(a, b)]) if vs else f)
        return out


def libfn(kind, args, outs, ax=None):
    """outs: list of (argsorts, sort); returns accessor list"""
    bodies, sig, layout = [], [], []
    for a in args:
        if isinstance(a, Arr):
            nd = len(a.shape)
            gs = [ctx.new_generic("b") for _ in range(nd)]
            ctx.generics.extend(gs)
            try:
                e = a.fn(*gs)
                if is_bool(e):
                    e = B(e)
                elif is_strv(e):
                    e = S(e)
                else:
                    e = rd.arith(R(e))
            finally:
                del ctx.generics[len(ctx.generics) - nd:]
            bodies.extend(I_(s) for s in a.shape)
            bodies.append(subst(e, *zip(gs, [P0, P1][:nd])))
            sig.append(("arr", nd, e.sort().name()))
            layout.append(nd)
        elif a is None or isinstance(a, (str, bool)):
            sig.append(("c", repr(a)))
        elif isinstance(a, EnumV):
            sig.append(("c", a.name))
        else:
            t = a if is_z3(a) else R(a)
            if is_z3(t) and t.sort() == Int:
                t = z3.ToReal(t)
            if t.sort() == Real:
                t = rd.arith(t)
            bodies.append(t)
            sig.append(("s", t.sort().name()))
            layout.append(0)
    s, gens = intern(kind, bodies, outs, ax, sig=tuple(sig), cls=LibSym)
    s.layout = layout
    return [s.at(gens, j) for j in range(len(outs))], s


def const(i):
    return int(num_const(i)) if num_const(i) is not None else None


class NP:
    def __init__(self, lib):
        self.lib = lib
        self.I = lib.I

    # ---------------------------------------------------------------- construction
    def from_list(self, items):
        items = [self.I.force(x) for x in items]
        if items and all(isinstance(x, (Arr, ListV, TupleV)) for x in items):
            rows = [self.asarray(x) for x in items]
            nd = len(rows[0].shape)
            for r in rows[1:]:
                for a, b in zip(rows[0].shape, r.shape):
                    self.dim_eq(a, b)

            def fn(i, *r):
                c = const(i)
                if c is not None:
                    return rows[c].fn(*r)
                return merge([(I_(i) == j, x.fn(*r)) for j, x in enumerate(rows[:-1])] + [(And(*[I_(i) != j for j in range(len(rows) - 1)]), rows[-1].fn(*r))])

            return Arr((len(rows),) + rows[0].shape, fn)
        if any(is_real(x) or isinstance(x, float) for x in items) and all(is_num(x) or is_bool(x) for x in items):
            items = [x if (isinstance(x, float) and x in (INF, -INF)) else R(x) for x in items]

        def fn(i):
            c = const(i)
            if c is not None:
                return items[c]
            return merge([(I_(i) == j, x) for j, x in enumerate(items[:-1])] + [(And(*[I_(i) != j for j in range(len(items) - 1)]), items[-1])])

        return Arr((len(items),), fn)

    def asarray(self, v):
        v = self.I.force(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, TupleV):
            return self.from_list(v.items)
        if isinstance(v, ListV):
            c = v.c
            if isinstance(c, Conc):
                return self.from_list(c.items)
            n = self.lib.content_len(c)
            probe = ctx.new_generic("b")
            ctx.generics.append(probe)
            try:
                e = self.lib.content_item(c, probe)
            finally:
                ctx.generics.pop()
            if isinstance(e, (Arr, ListV, TupleV)):
                e = self.asarray(e)
                sh = e.shape
                return Arr((n,) + tuple(sh), lambda i, *r: self.asarray(self.lib.content_item(c, i)).fn(*r))
            return Arr((n,), lambda i: self.lib.content_item(c, i))
        if isinstance(v, SymIter):
            return self.asarray(ListV(self.lib.content_of(v)))
        d = self.lib.pd.to_array(v)
        if d is not None:
            return d
        from .lib import RangeV
        if isinstance(v, RangeV):
            return Arr((self.lib.range_len(v),), lambda i: z3.simplify(I_(v.lo) + I_(i)))
        if is_num(v) or is_bool(v):
            return v
        raise Unsupported(f"array from {type(v).__name__}")

    def dim_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if a != b:
                raise PyRaise("ValueError", "shape mismatch")
            return
        if I_(a).eq(I_(b)):
            return
        c = I_(a) == I_(b)
        if conc_bool(z3.simplify(c)) is True or ctx.entails(c, 1000):
            return
        if ctx.spec:
            return
        if not self.I.decide(c):
            raise PyRaise("ValueError", "shape mismatch")

    def bdim(self, a, b):
        ca, cb = const(a), const(b)
        if ca == 1:
            return b
        if cb == 1:
            return a
        self.dim_eq(a, b)
        return a if isinstance(a, int) else (b if isinstance(b, int) else a)

    def ew(self, f, a, b):
        a, b = self.asarray(a) if isinstance(a, (ListV, TupleV)) else a, self.asarray(b) if isinstance(b, (ListV, TupleV)) else b
        da, db = self.lib.pd.to_array(a), self.lib.pd.to_array(b)
        a, b = da if da is not None else a, db if db is not None else b
        if not isinstance(a, Arr):
            gb = b.fn
            return Arr(b.shape, lambda *i: f(a, gb(*i)))
        if not isinstance(b, Arr):
            ga = a.fn
            return Arr(a.shape, lambda *i: f(ga(*i), b))
        # snapshot the closures: arrays are mutable
        fa, fb, sa, sb = a.fn, b.fn, a.shape, b.shape
        n = max(len(sa), len(sb))
        pa, pb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
        shape = tuple(self.bdim(x, y) for x, y in zip(pa, pb))

        def ix(i, s, p):
            i = i[n - len(s):]
            return [0 if const(d) == 1 and const(shape[n - len(s) + j]) != 1 else x for j, (x, d) in enumerate(zip(i, s))]

        return Arr(shape, lambda *i: f(fa(*ix(i, sa, pa)), fb(*ix(i, sb, pb))))

    def map(self, f, a):
        if isinstance(a, (ListV, TupleV)):
            a = self.asarray(a)
        d = self.lib.pd.to_array(a)
        if d is not None:
            a = d
        if not isinstance(a, Arr):
            return f(a)
        fn = a.fn
        return Arr(a.shape, lambda *i: f(fn(*i)))

    def row(self, v, i):
        if len(v.shape) == 1:
            return v.fn(i)
        fn = v.fn
        return Arr(v.shape[1:], lambda *r: fn(i, *r))

    def scalar(self, v):
        v = self.I.force(v) if isinstance(v, (Opt, Union)) else v
        if isinstance(v, Arr):
            if len(v.shape) == 0:
                return v.fn()
            if all(const(s) == 1 for s in v.shape):
                return v.fn(*[0] * len(v.shape))
            raise Unsupported("array used as a scalar")
        return v

    # ---------------------------------------------------------------- indexing
    def getitem(self, a, ix):
        if isinstance(ix, TupleV):
            idx = list(ix.items)
        else:
            idx = [ix]
        idx = [self.I.force(x) if isinstance(x, (Opt, Union)) else x for x in idx]
        fn, shape = a.fn, a.shape
        if len([x for x in idx if x is not None]) > len(shape):
            raise PyRaise("IndexError")
        out_shape, maps = [], []  # maps: for each source dim a function of output indices
        d = 0
        for x in idx:
            if x is None:
                out_shape.append(1)
                maps.append(("new",))
                continue
            n = shape[d]
            if isinstance(x, tuple) and x and x[0] == "slice":
                if x[3] is not None and const(x[3]) == -1 and x[1] is None and x[2] is None:
                    out_shape.append(n)
                    maps.append(("rev", n))
                elif x[3] is not None and const(x[3]) != 1:
                    if x[1] is None and x[2] is None:
                        st = I_(x[3])
                        if not ctx.entails(st >= 1, 500):
                            raise Unsupported("array slice step")
                        m = z3.simplify((I_(n) + st - 1) / st)
                        out_shape.append(m)
                        maps.append(("step", st))
                    else:
                        raise Unsupported("array slice step")
                else:
                    lo, m = self.lib.slice_bounds(x, n)
                    out_shape.append(m)
                    maps.append(("off", lo))
            elif isinstance(x, (Arr, ListV)):
                arr = self.asarray(x)
                probe = arr.fn(*[z3.Int(f"probe{t}") for t in range(len(arr.shape))])
                if is_bool(probe):
                    if len(arr.shape) == 2 and len(idx) == 1:
                        raise Unsupported("2d mask selection")
                    self.dim_eq(arr.shape[0], n)
                    afn = arr.fn
                    cnt, pos, _ = rd.NZ(lambda i: B(afn(i)), n)
                    out_shape.append(cnt)
                    maps.append(("pos", pos))
                else:
                    if len(arr.shape) != 1:
                        raise Unsupported("multi dimensional fancy index")
                    out_shape.append(arr.shape[0])
                    afn = arr.fn
                    neg = z3.Int("probe")
                    maps.append(("pos", (lambda afn, n: lambda i: self.wrap(afn(i), n))(afn, n)))
            else:
                if is_real(x):
                    raise PyRaise("IndexError", "float index")
                j = self.lib.norm_index(x, n, check=not ctx.spec)
                maps.append(("fix", j))
            d += 1
        for n in shape[d:]:
            out_shape.append(n)
            maps.append(("off", 0))

        def get(*o):
            o = list(o)
            src = []
            for m in maps:
                if m[0] == "new":
                    o.pop(0)
                elif m[0] == "fix":
                    src.append(m[1])
                else:
                    i = o.pop(0)
                    if m[0] == "off":
                        src.append(i if (isinstance(m[1], int) and m[1] == 0) else self.lib.addi(i, m[1]) if isinstance(i, int) and isinstance(m[1], int) else z3.simplify(I_(i) + I_(m[1])))
                    elif m[0] == "rev":
                        src.append(m[1] - 1 - i if isinstance(i, int) and isinstance(m[1], int) else z3.simplify(I_(m[1]) - 1 - I_(i)))
                    elif m[0] == "step":
                        src.append(z3.simplify(I_(i) * m[1]))
                    else:
                        src.append(m[1](I_(i)))
            return fn(*src)

        if not out_shape:
            return get()
        r = Arr(out_shape, get)
        inv = getattr(a, "perm_inverse", None)
        if inv is not None and [m[0] for m in maps] == ["rev"]:
            # the reverse of a permutation is a permutation
            n = shape[0]
            r.perm_inverse = lambda i: z3.simplify(I_(n) - 1 - inv(i))
        return r

    def wrap(self, v, n):
        if isinstance(v, int):
            return v if v >= 0 else z3.simplify(I_(n) + v)
        v = I(v)
        if ctx.spec or ctx.generics:
            return v
        return v

    def setitem(self, a, ix, v):
        fn, shape = a.fn, a.shape
        ix = self.I.force(ix) if isinstance(ix, (Opt, Union)) else ix
        if isinstance(ix, Arr):
            probe = ix.fn(*[z3.Int(f"probe{t}") for t in range(len(ix.shape))])
            if is_bool(probe) and not isinstance(v, Arr):
                m = ix.fn
                a.c = ArrC(shape, lambda *i: merge([(B(m(*i)), v), (Not(B(m(*i))), fn(*i))]))
                return
            raise Unsupported("array assignment")
        if isinstance(ix, tuple) and ix and ix[0] == "slice":
            if ix[1] is None and ix[2] is None and ix[3] is None:
                vv = v
                if isinstance(v, Arr):
                    self.dim_eq(v.shape[0], shape[0])
                    vf = v.fn
                    a.c = ArrC(shape, lambda *i: vf(*i))
                else:
                    a.c = ArrC(shape, lambda *i: vv)
                return
            lo, m = self.lib.slice_bounds(ix, shape[0])
            if isinstance(v, Arr):
                self.dim_eq(v.shape[0], m)
                vf = v.fn
                val = lambda i, *r: vf(z3.simplify(I_(i) - I_(lo)), *r)
            else:
                val = lambda i, *r: v
            a.c = ArrC(shape, lambda i, *r: merge([(And(I_(lo) <= I_(i), I_(i) < I_(lo) + I_(m)), val(i, *r)), (Not(And(I_(lo) <= I_(i), I_(i) < I_(lo) + I_(m))), fn(i, *r))]))
            return
        if isinstance(ix, TupleV):
            raise Unsupported("array assignment with several indices")
        if len(shape) == 1:
            j = self.lib.norm_index(ix, shape[0])
            vv = v

            def get(i):
                ci, cj = const(i), const(j)
                if ci is not None and cj is not None:
                    return vv if ci == cj else fn(i)
                return merge([(I_(i) == I_(j), vv), (I_(i) != I_(j), fn(i))])

            a.c = ArrC(shape, get)
            return
        raise Unsupported("array assignment")

    # ---------------------------------------------------------------- reductions
    def red(self, op, a, axis=None, **kw):
        a = self.asarray(a)
        if not isinstance(a, Arr):
            return a
        fn, shape = a.fn, a.shape
        if axis is not None:
            axis = const(axis)
            if axis < 0:
                axis += len(shape)
        if len(shape) == 1:
            return self.red1(op, fn, shape[0], **kw)
        if axis is None:
            fl = self.ravel(a)
            if op in ("sum", "all", "any", "max", "min", "mean"):
                return self.red1(op, fl.fn, fl.shape[0], **kw)
            return self.red1(op, fl.fn, fl.shape[0], **kw)
        if len(shape) == 2:
            n = shape[axis]
            if axis == 0:
                return Arr((shape[1],), lambda j: self.red1(op, lambda i: fn(i, j), n, **kw))
            return Arr((shape[0],), lambda i: self.red1(op, lambda j: fn(i, j), n, **kw))
        raise Unsupported("reduction")

    def num(self, f):
        def g(i):
            v = f(i)
            if isinstance(v, (Opt, Union)):
                v = self.I.force(v)
            if is_bool(v):
                return If(B(v), z3.RealVal(1), z3.RealVal(0))
            return R(v)
        return g

    def red1(self, op, f, n, ddof=0):
        g = self.num(f)
        probe = f(z3.Int("probe")) if const(n) is None or const(n) > 0 else 0
        isint = is_int(probe) or is_bool(probe)
        if op == "sum":
            s = rd.SUM(g, n)
            return z3.ToInt(s) if isint else s
        if op == "mean":
            return rd.arith(rd.SUM(g, n) / R(n)) if not isinstance(n, int) else rd.arith(rd.SUM(g, n) / R(n))
        if op in ("var", "std"):
            m = rd.arith(rd.SUM(g, n) / R(n))
            v = rd.arith(rd.SUM(lambda i: (g(i) - m) * (g(i) - m), n) / rd.arith(R(n) - R(ddof)))
            return v if op == "var" else rd.SQRT(v)
        if op == "all":
            return rd.FORALL(lambda i: B(self.I.truth_term(f(i))), n)
        if op == "any":
            return rd.EXISTS(lambda i: B(self.I.truth_term(f(i))), n)
        if op in ("max", "min", "argmax", "argmin"):
            if not ctx.spec and const(n) is None:
                if not self.I.decide(I_(n) > 0):
                    raise PyRaise("ValueError", "reduction of an empty array")
            elif const(n) == 0:
                raise PyRaise("ValueError", "reduction of an empty array")
            c = const(n)
            if c is not None and c <= 4 and op in ("max", "min"):
                r = f(0)
                for i in range(1, c):
                    r = self.lib.pick(op, r, f(i))
                return r
            if op.startswith("arg"):
                return rd.EXT("MAX" if "max" in op else "MIN", g, n)[1]
            m = rd.extval("MAX" if "max" in op else "MIN", g, n)
            return z3.ToInt(m) if isint else m
        raise Unsupported(op)

    def cumsum(self, a):
        a = self.asarray(a)
        if len(a.shape) != 1:
            a = self.ravel(a)
        g = self.num(a.fn)
        pre = rd.PREFIX(g)
        return Arr(a.shape, lambda i: pre(z3.simplify(I_(i) + 1)))

    def ravel(self, a):
        a = self.asarray(a)
        if len(a.shape) == 1:
            return Arr(a.shape, a.fn)
        if len(a.shape) == 2:
            n, m = a.shape
            fn = a.fn
            if const(m) == 1:
                return Arr((n,), lambda i: fn(i, 0))
            if const(n) == 1:
                return Arr((m,), lambda i: fn(0, i))
            flat = getattr(a, "flat", None)
            if flat is not None:
                return Arr((self.lib.muli(n, m),), flat)
            r = Arr((self.lib.muli(n, m),), lambda i: fn(I_(i) / I_(m), I_(i) % I_(m)))
            r.unflat = (n, m, fn)
            return r
        raise Unsupported("ravel")

    # ---------------------------------------------------------------- element functions
    def abs1(self, x):
        if isinstance(x, Arr):
            return self.map(self.abs1, x)
        x = self.I.force(x)
        if isinstance(x, (int, float)):
            return abs(x)
        if is_int(x):
            return z3.If(x >= 0, x, -x)
        x = R(x)
        return z3.If(x >= 0, x, rd.arith(-x))

    def floor1(self, x):
        x = self.I.force(x)
        if isinstance(x, int):
            return R(x)
        if is_int(x):
            return z3.ToReal(x)
        return z3.ToReal(z3.ToInt(R(x)))

    def ceil1(self, x):
        x = self.I.force(x)
        if is_int(x):
            return R(x)
        return -z3.ToReal(z3.ToInt(-R(x)))

    def round1(self, v, n):
        """round half even to n decimals: within half a unit, and a multiple of the unit"""
        x = R(v)
        sc = 10 ** n
        f = z3.Function("rint", Real, Int)
        y = rd.arith(x * sc)
        if "rint" not in ctx.symbols:
            ctx.symbols["rint"] = Symbol("rint", "rint", (), [], [], [((Real,), Int)], None)
            t = z3.Real("rt")
            u = z3.Real("ru")
            ctx.symbols["rint"]._ax = [
                z3.ForAll([t], z3.And(2 * (z3.ToReal(f(t)) - t) <= 1, 2 * (t - z3.ToReal(f(t))) <= 1), patterns=[f(t)]),
                z3.ForAll([t, u], z3.Implies(t <= u, f(t) <= f(u)), patterns=[z3.MultiPattern(f(t), f(u))])]
        return rd.arith(z3.ToReal(f(y)) / sc)

    def log10_1(self, x):
        f = z3.Function("log10", Real, Real)
        x = rd.arith(R(x))
        if "log10" not in ctx.symbols:
            ctx.symbols["log10"] = Symbol("log10", "log10", (), [], [], [((Real,), Real)], None)
            t, u = z3.Real("lt"), z3.Real("lu")
            p10 = z3.Function("pow10", Int, Real)
            k = z3.Int("lk")
            ax = [z3.ForAll([t, u], z3.Implies(z3.And(0 < t, t < u), f(t) < f(u)), patterns=[z3.MultiPattern(f(t), f(u))])]
            # 10**floor(log10 t) <= t < 10**(floor+1)
            ax.append(z3.ForAll([t], z3.Implies(t > 0, z3.And(p10(z3.ToInt(f(t))) <= t, t < 10 * p10(z3.ToInt(f(t))))), patterns=[f(t)]))
            ctx.symbols["log10"]._ax = ax
            rd.POW10(z3.IntVal(0))
        return f(x)

    def isfinite1(self, x):
        if isinstance(x, Opt):
            raise Unsupported("isfinite of None")
        if isinstance(x, float):
            return x not in (INF, -INF)
        if isinstance(x, Union):
            return Or(*[And(c, B(self.isfinite1(v))) for c, v in x.alts])
        fin = getattr(ctx, "finite", None)
        if fin is not None:
            r = fin(x)
            if r is not None:
                return r
        return True

    # ---------------------------------------------------------------- numpy functions
    def call(self, name, args, kw):
        m = getattr(self, "f_" + name.replace(".", "_"), None)
        if m is None:
            raise Unsupported(f"numpy.{name}")
        args = [self.I.force(a) if isinstance(a, (Opt, Union)) else a for a in args]
        kw = {k: (self.I.force(a) if isinstance(a, (Opt, Union)) else a) for k, a in kw.items()}
        if name not in ("isfinite", "isnan", "asarray", "array", "all", "any", "shape", "size"):
            args = [self.settle(a) for a in args]
            kw = {k: self.settle(a) for k, a in kw.items()}
        return m(*args, **kw)

    def f_array(self, v, dtype=None):
        r = self.asarray(v)
        return Arr(r.shape, r.fn) if isinstance(r, Arr) else r

    f_asarray = f_array

    def f_atleast_1d(self, v):
        v = self.asarray(v)
        return v if isinstance(v, Arr) else self.from_list([v])

    def f_atleast_2d(self, v):
        v = self.asarray(v)
        if not isinstance(v, Arr):
            return Arr((1, 1), lambda i, j: v)
        if len(v.shape) == 0:
            return Arr((1, 1), lambda i, j: v.fn())
        if len(v.shape) == 1:
            fn = v.fn
            return Arr((1, v.shape[0]), lambda i, j: fn(j))
        return v

    def f_abs(self, x):
        return self.map(self.abs1, x)

    f_absolute = f_abs

    def f_sqrt(self, x):
        return self.map(lambda v: rd.SQRT(R(v)), x)

    def f_log(self, x):
        return self.map(lambda v: rd.LOG(R(v)), x)

    def f_log10(self, x):
        return self.map(lambda v: self.log10_1(R(v)), x)

    def f_exp(self, x):
        return self.map(lambda v: rd.EXP(R(v)), x)

    def f_floor(self, x):
        return self.map(self.floor1, x)

    def f_ceil(self, x):
        return self.map(self.ceil1, x)

    def f_arctan(self, x):
        return self.map(lambda v: z3.Function("arctan", Real, Real)(R(v)), x)

    def f_power(self, a, b):
        return self.lib.binop(ast.Pow(), self.asarray(a) if isinstance(a, (ListV, TupleV)) else a, b)

    def f_square(self, a):
        return self.lib.binop(ast.Mult(), a, a)

    def settle(self, a):
        """arithmetic is only modelled on values known to be finite"""
        if isinstance(a, Arr) and getattr(a, "fin", None) is not None and not ctx.spec:
            fin = a.fin
            if not ctx.entails(rd.FORALL(lambda i: B(fin(i)), a.shape[0])):
                raise Unsupported("arithmetic on values that may not be finite")
            r = Arr(a.shape, a.fn, series=a.series)
            return r
        return a

    def f_isfinite(self, x):
        if isinstance(x, Arr) and getattr(x, "fin", None) is not None:
            fin = x.fin
            return Arr(x.shape, lambda i: B(fin(i)))
        return self.map(self.isfinite1, x)

    def f_isnan(self, x):
        return self.map(lambda v: False, x)

    def f_sum(self, a, axis=None):
        return self.red("sum", a, axis)

    def f_mean(self, a, axis=None):
        return self.red("mean", a, axis)

    def f_var(self, a, axis=None, ddof=0):
        return self.red("var", a, axis, ddof=ddof)

    def f_std(self, a, axis=None, ddof=0):
        return self.red("std", a, axis, ddof=ddof)

    def f_max(self, a, axis=None):
        return self.red("max", a, axis)

    f_amax = f_max

    def f_min(self, a, axis=None):
        return self.red("min", a, axis)

    f_amin = f_min

    def f_argmax(self, a, axis=None):
        return self.red("argmax", a, axis)

    def f_argmin(self, a, axis=None):
        return self.red("argmin", a, axis)

    def f_all(self, a, axis=None):
        if is_bool(a):
            return a
        return self.red("all", a, axis)

    def f_any(self, a, axis=None):
        if is_bool(a):
            return a
        return self.red("any", a, axis)

    def f_cumsum(self, a):
        return self.cumsum(a)

    def f_ravel(self, a):
        r = self.asarray(a)
        return self.ravel(r)

    def f_maximum(self, a, b):
        return self.ew(lambda x, y: self.lib.pick("max", x, y), a, b) if isinstance(a, Arr) or isinstance(b, Arr) else self.lib.pick("max", a, b)

    def f_minimum(self, a, b):
        return self.ew(lambda x, y: self.lib.pick("min", x, y), a, b) if isinstance(a, Arr) or isinstance(b, Arr) else self.lib.pick("min", a, b)

    def f_clip(self, a, lo, hi):
        return self.f_minimum(self.f_maximum(a, lo), hi)

    def f_average(self, a, axis=None, weights=None):
        a = self.asarray(a)
        if weights is None:
            return self.red("mean", a, axis)
        w = self.asarray(weights)
        if len(a.shape) == 1:
            self.dim_eq(a.shape[0], w.shape[0])
            n = w.shape[0]
            fa, fw = self.num(a.fn), self.num(w.fn)
            return self.lib.div(rd.SUM(lambda i: fa(i) * fw(i), n), rd.SUM(fw, n))
        ax = const(axis) if axis is not None else None
        if ax in (0, -2) and len(a.shape) == 2 and len(w.shape) == 1:
            self.dim_eq(a.shape[0], w.shape[0])
            n = w.shape[0]
            fw, fn = self.num(w.fn), a.fn
            den = rd.SUM(fw, n)
            return Arr((a.shape[1],), lambda j: self.lib.div(rd.SUM(lambda i: R(fn(i, j)) * fw(i), n), den))
        raise Unsupported("np.average")

    def f_cov(self, m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None):
        a = self.asarray(m)
        if y is not None or fweights is not None:
            raise Unsupported("np.cov options")
        one = len(a.shape) == 1
        if one:
            fn1 = a.fn
            n, d, f = a.shape[0], 1, (lambda i, j: fn1(i))
        else:
            fn = a.fn
            if rowvar is True:
                n, d, f = a.shape[1], a.shape[0], (lambda i, j: fn(j, i))
            elif rowvar is False:
                n, d, f = a.shape[0], a.shape[1], fn
            else:
                raise Unsupported("np.cov rowvar")
        if const(d) is None and not one:
            # numpy squeezes the 1x1 matrix to a scalar
            if self.I.decide(I_(d) == 1):
                one = True
        elif const(d) == 1:
            one = True
        if ddof is None:
            ddof = 0 if bias is True else 1
        if aweights is None:
            w = lambda i: z3.RealVal(1)
        else:
            wa = self.asarray(aweights)
            self.dim_eq(wa.shape[0], n)
            w = self.num(wa.fn)
        W = rd.SUM(w, n)
        if const(ddof) == 0:
            fact = W
        elif aweights is None:
            fact = rd.arith(W - R(ddof))
        else:
            fact = rd.arith(W - R(ddof) * rd.SUM(lambda i: w(i) * w(i), n) / W)
        mean = lambda j: rd.arith(rd.SUM(lambda i: R(f(i, j)) * w(i), n) / W)

        def c(j, k):
            mj, mk = mean(j), mean(k)
            s = rd.SUM(lambda i: w(i) * (R(f(i, j)) - mj) * (R(f(i, k)) - mk), n)
            return rd.arith(s / fact)

        if one:
            return Arr((), lambda: c(0, 0))
        return Arr((d, d), c)

    def f_diag(self, a):
        a = self.asarray(a)
        fn = a.fn
        if len(a.shape) == 2:
            return Arr((a.shape[0],), lambda i: fn(i, i))
        raise Unsupported("np.diag")

    f_diagonal = f_diag

    def f_outer(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        fa, fb = a.fn, b.fn
        return Arr((a.shape[0], b.shape[0]), lambda i, j: self.lib.binop(ast.Mult(), fa(i), fb(j)))

    def f_ones(self, n, dtype=None):
        return self.full(n, z3.RealVal(1))

    def f_zeros(self, n, dtype=None):
        return self.full(n, z3.RealVal(0))

    def full(self, n, v):
        if isinstance(n, (TupleV, ListV)):
            n = self.lib.concrete_items(n)
        else:
            n = [n]
        return Arr(tuple(n), lambda *i: v)

    def f_zeros_like(self, a):
        return self.map(lambda v: z3.RealVal(0), self.asarray(a))

    def f_ones_like(self, a):
        return self.map(lambda v: z3.RealVal(1), self.asarray(a))

    def f_arange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        from .lib import RangeV
        return self.asarray(RangeV(a, b, step))

    def f_linspace(self, a, b, num=50):
        a, b = R(self.scalar(a)), R(self.scalar(b))
        n = self.I.force(num)
        if is_real(n):
            n = self.lib.to_int(n)
        c = const(n)
        if c is not None and c <= 200:
            n = c
            step = rd.arith((b - a) / (c - 1)) if c > 1 else z3.RealVal(0)

            def fn(i):
                ci = const(i)
                if ci == 0:
                    return a
                if ci is not None and ci == c - 1:
                    return b
                return rd.arith(a + R(i) * step)
            return Arr((n,), fn)
        n = I_(n)
        f = z3.Function("linspace", Real, Real, Int, Int, Real)
        key = "linspace"
        if key not in ctx.symbols:
            ctx.symbols[key] = Symbol(key, key, (), [], [], [((Real, Real, Int, Int), Real)], None)
            x, y, m, i, j = z3.Real("lx"), z3.Real("ly"), z3.Int("lm"), z3.Int("li"), z3.Int("lj")
            t = f(x, y, m, i)
            ctx.symbols[key]._ax = [
                z3.ForAll([x, y, m, i], z3.Implies(i == 0, t == x), patterns=[t]),
                z3.ForAll([x, y, m, i], z3.Implies(z3.And(i == m - 1, m > 1), t == y), patterns=[t]),
                z3.ForAll([x, y, m, i], z3.Implies(z3.And(0 <= i, i < m, x <= y), z3.And(x <= t, t <= y)), patterns=[t]),
                z3.ForAll([x, y, m, i], z3.Implies(z3.And(0 <= i, i < m, y <= x), z3.And(y <= t, t <= x)), patterns=[t]),
                z3.ForAll([x, y, m, i, j], z3.Implies(z3.And(0 <= i, i < j, j < m, x > y), t > f(x, y, m, j)),
                          patterns=[z3.MultiPattern(t, f(x, y, m, j))]),
                z3.ForAll([x, y, m, i, j], z3.Implies(z3.And(0 <= i, i < j, j < m, x < y), t < f(x, y, m, j)),
                          patterns=[z3.MultiPattern(t, f(x, y, m, j))]),
                z3.ForAll([x, y, m, i, j], z3.Implies(z3.And(0 <= i, i < j, j < m, x <= y), t <= f(x, y, m, j)),
                          patterns=[z3.MultiPattern(t, f(x, y, m, j))]),
            ]
        return Arr((n,), lambda i: f(a, b, n, I_(i)))

    def f_logspace(self, a, b, num=50):
        l = self.f_linspace(a, b, num)
        return self.map(lambda v: z3.Function("tenpow", Real, Real)(R(v)), l)

    def f_concatenate(self, arrs, axis=0):
        arrs = [self.asarray(x) for x in self.lib.concrete_items(arrs)]
        if any(len(x.shape) != 1 for x in arrs):
            if axis == 0 and len(arrs) == 1:
                return arrs[0]
            raise Unsupported("concatenate")
        offs, tot = [], 0
        for x in arrs:
            offs.append(tot)
            tot = self.lib.addi(tot, x.shape[0])
        fns = [x.fn for x in arrs]
        ns = [x.shape[0] for x in arrs]

        def fn(i):
            ci = const(i)
            alts, neg = [], []
            for f, o, n in zip(fns, offs, ns):
                rel = self.lib.subi(i, o)
                cond = I_(rel) < I_(n)
                cb = conc_bool(z3.simplify(cond))
                if cb is False:
                    continue
                alts.append((And(*neg, cond), f(rel)))
                neg.append(Not(cond))
                if cb is True:
                    break
            if not alts:
                raise PyRaise("IndexError")
            last = And(*[Not(c) for c, _ in alts[:-1]]) if len(alts) > 1 else z3.BoolVal(True)
            alts[-1] = (And(*neg[:len(alts) - 1]) if len(alts) > 1 else z3.BoolVal(True), alts[-1][1])
            return merge(alts)

        out = Arr((tot if isinstance(tot, int) else z3.simplify(tot),), fn)
        return self.named(out) if len(arrs) > 2 else out

    def named(self, a):
        """the same array under a name of its own, so that its definition is unfolded at the indices that matter"""
        if const(a.shape[0]) is not None or len(a.shape) != 1:
            return a

        def ax(s, params):
            n, e = s.bodies
            i = z3.Int("di")
            t = s.at(params, 0)(i)
            return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), t == subst(e, (P0, i))), patterns=[t])]

        try:
            (f,), s = libfn("array", [a], [((Int,), Real)], ax)
        except (Unsupported, z3.Z3Exception):
            return a
        return Arr(a.shape, lambda i: f(I_(i)))

    def f_vstack(self, arrs):
        rows = [self.asarray(x) for x in self.lib.concrete_items(arrs)]
        return self.from_list(rows)

    def f_dot(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        fa, fb = a.fn, b.fn
        if len(a.shape) == 2 and len(b.shape) == 2:
            self.dim_eq(a.shape[1], b.shape[0])
            return Arr((a.shape[0], b.shape[1]), lambda i, j: rd.SUM(lambda t: R(fa(i, t)) * R(fb(t, j)), a.shape[1]))
        if len(a.shape) == 1 and len(b.shape) == 2:
            return Arr((b.shape[1],), lambda j: rd.SUM(lambda t: R(fa(t)) * R(fb(t, j)), a.shape[0]))
        if len(a.shape) == 1 and len(b.shape) == 1:
            return rd.SUM(lambda t: R(fa(t)) * R(fb(t)), a.shape[0])
        raise Unsupported("dot")

    def f_diff(self, a):
        a = self.asarray(a)
        fn = a.fn
        n = self.lib.subi(a.shape[0], 1)
        return Arr((n,), lambda i: self.lib.binop(ast.Sub(), fn(self.lib.addi(i, 1)), fn(i)))

    def f_where(self, m, a=None, b=None):
        m = self.asarray(m)
        if a is None:
            fn = m.fn
            cnt, pos, _ = rd.NZ(lambda i: B(fn(i)), m.shape[0])
            return TupleV([Arr((cnt,), lambda j: pos(I_(j)))])
        t = self.ew(lambda c, x: (c, x), m, a)
        r = self.ew(lambda cx, y: merge([(B(cx[0]), cx[1]), (Not(B(cx[0])), y)]), t, b)
        return r

    def f_argsort(self, a, kind=None):
        a = self.asarray(a)
        p, q = rd.SORTPERM(self.num(a.fn), a.shape[0])
        r = Arr(a.shape, lambda i: p(I_(i)))
        r.inverse = q
        # sorting a permutation gives its inverse
        inv = getattr(a, "perm_inverse", None)
        if inv is not None:
            r2 = Arr(a.shape, lambda i: inv(I_(i)))
            fn = a.fn
            r2.perm_inverse = lambda i: I_(fn(i))
            ctx.trusted.add("argsort of a permutation is its inverse (library lemma)")
            return r2
        r.perm_inverse = q
        return r

    def f_sort(self, a):
        a = self.asarray(a)
        p, _ = rd.SORTPERM(self.num(a.fn), a.shape[0])
        fn = a.fn
        return Arr(a.shape, lambda i: fn(p(I_(i))))

    def f_unique(self, a):
        a = self.asarray(a)

        def ax(s, params):
            n, e = s.bodies[0], s.bodies[1]
            m, u = s.at(params, 0), s.at(params, 1)
            w, v = s.at(params, 2), s.at(params, 3)
            i, j = z3.Int("ui"), z3.Int("uj")
            return [m >= 0, m <= n, z3.Implies(n > 0, m > 0),
                    z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), u(i) < u(j)), patterns=[z3.MultiPattern(u(i), u(j))]),
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= w(j), w(j) < n, subst(e, (P0, w(j))) == u(j))), patterns=[u(j)]),
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= v(i), v(i) < m, u(v(i)) == subst(e, (P0, i)))), patterns=[v(i)])]

        (m, u, w, v), s = libfn("unique", [a], [((), Int), ((Int,), Real), ((Int,), Int), ((Int,), Int)], ax)
        return Arr((m,), lambda i: u(I_(i)))

    def f_split(self, a, n):
        d = self.lib.pd.split(a, n)
        if d is not None:
            return d
        a = self.asarray(a)
        n = self.I.force(n)
        N = a.shape[0]
        if not ctx.spec and not self.I.decide(And(I_(n) > 0, I_(N) % I_(n) == 0)):
            raise PyRaise("ValueError", "array split does not result in an equal division")
        m = z3.simplify(I_(N) / I_(n))
        fn = a.fn
        return ListV(Fam(n, lambda k: [(True, Arr((m,) + a.shape[1:], lambda i, *r: fn(z3.simplify(I_(k) * m + I_(i)), *r)))], True))

    def f_meshgrid(self, x, y, indexing="xy"):
        x, y = self.asarray(x), self.asarray(y)
        fx, fy = x.fn, y.fn
        if indexing == "ij":
            sh = (x.shape[0], y.shape[0])
            a = Arr(sh, lambda i, j: fx(i))
            b = Arr(sh, lambda i, j: fy(j))
        else:
            sh = (y.shape[0], x.shape[0])
            a = Arr(sh, lambda i, j: fx(j))
            b = Arr(sh, lambda i, j: fy(i))
        return TupleV([a, b])

    def f_histogram(self, a, bins=10, range=None, density=None, weights=None):
        a = self.asarray(a)
        w = None if weights is None else self.asarray(weights)
        if w is not None:
            self.dim_eq(a.shape[0], w.shape[0])
        if isinstance(bins, (Arr, ListV)):
            b = self.asarray(bins)
            nb = self.lib.subi(b.shape[0], 1)
            args = [a, b, w, True if density is True else None]

            def ax(s, params):
                h = s.at(params, 0)
                i = z3.Int("hi")
                out = []
                return out

            (h, tot), s = libfn("histogram", args, [((Int,), Real), ((), Real)], None)
            arr = Arr((nb,), lambda i: h(I_(i)))
            self.hist_facts(arr, a, b, w, h)
            return TupleV([arr, Arr(b.shape, b.fn)])
        nb = bins
        (h, e, hp), s = libfn("histogram_n", [a, nb, w, True if density is True else None], [((Int,), Real), ((Int,), Real), ((), Int)], self.histn_ax)
        wpos = rd.FORALL(lambda i: R(w.fn(i)) > 0, w.shape[0]) if w is not None else z3.BoolVal(True)
        if ctx.entails(And(I_(nb) >= 2, I_(a.shape[0]) >= 1, wpos), 1500):
            # the largest value falls in the last bin (the middle one when all values are equal)
            ctx.trusted.add("numpy.histogram with k >= 2 equal bins over the data range: some bin after the first holds weight")
            ctx.assume(And(hp >= 1, hp < I_(nb), h(hp) > 0))
            tot = rd.SUM(lambda i: h(I_(i)), nb)
            ctx.assume(And(tot > 0, h(0) < tot, h(0) >= 0))
        arr = Arr((nb,), lambda i: h(I_(i)))
        edges = Arr((self.lib.addi(nb, 1),), lambda i: e(I_(i)))
        ctx.trusted.add("numpy.histogram: non negative counts for positive weights, increasing edges covering the data")
        self.hist_facts(arr, a, edges, w, h)
        return TupleV([arr, edges])

    def histn_ax(self, s, params):
        e = s.at(params, 1)
        i, j = z3.Int("hi"), z3.Int("hj")
        return [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j), e(i) < e(j)), patterns=[z3.MultiPattern(e(i), e(j))])]

    def hist_facts(self, arr, a, b, w, h):
        ctx.trusted.add("numpy.histogram is a function of (data, bins, weights); counts are >= 0 for weights >= 0")
        k = z3.Int("hk")
        pos = rd.FORALL(lambda i: R(w.fn(i)) >= 0, w.shape[0]) if w is not None else z3.BoolVal(True)
        if ctx.entails(pos, 1500):
            ctx.assume(z3.ForAll([k], h(k) >= 0, patterns=[h(k)]))

    def f_histogram2d(self, x, y, bins=10, weights=None, density=None):
        x, y = self.asarray(x), self.asarray(y)
        bs = self.lib.concrete_items(bins)
        bx, by = self.asarray(bs[0]), self.asarray(bs[1])
        w = None if weights is None else self.asarray(weights)
        (h,), s = libfn("histogram2d", [x, y, bx, by, w], [((Int, Int), Real)], None)
        ctx.trusted.add("numpy.histogram2d is a function of (x, y, bins, weights)")
        sub = lambda n: self.lib.subi(n, 1)
        hist = Arr((sub(bx.shape[0]), sub(by.shape[0])), lambda i, j: h(I_(i), I_(j)))
        return TupleV([hist, Arr(bx.shape, bx.fn), Arr(by.shape, by.fn)])

    def f_searchsorted(self, a, v, side="left"):
        a = self.asarray(a)
        fn = a.fn
        v = self.scalar(v)
        # for a non decreasing array this is the insertion point; for any array it is where binary search ends
        n = a.shape[0]
        srt = ctx.entails(rd.FORALL(lambda i: rd.FORALL(lambda j: R(fn(i)) <= R(fn(j)), n, I_(i) + 1), n), 3000)
        (ss,), s = libfn("searchsorted_" + side + ("_sorted" if srt else ""), [a, R(v)], [((), Int)], self.ss_ax(side, srt))
        ctx.trusted.add("numpy.searchsorted is a binary search")
        return ss

    def ss_ax(self, side, srt):
        def ax(s, params):
            n, e, v = s.bodies
            r = s.at(params, 0)
            i = z3.Int("si")
            lo = lambda t: (subst(e, (P0, t)) < v) if side == "left" else (subst(e, (P0, t)) <= v)
            out = [0 <= r, r <= n, z3.Implies(r < n, z3.Not(lo(r))), z3.Implies(r > 0, lo(r - 1))]
            if srt:
                out += [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), lo(i))),
                        z3.ForAll([i], z3.Implies(z3.And(r <= i, i < n), z3.Not(lo(i))))]
            return out
        return ax

    def interp_fn(self, xs, ys, kind="linear"):
        """piecewise linear interpolation through (xs, ys), xs non decreasing"""
        def ax(s, params):
            n, ex, n2, ey = s.bodies
            val, seg = s.at(params, 0), s.at(params, 1)
            q, p = z3.Real("iq"), z3.Real("ip")
            X = lambda i: subst(ex, (P0, i))
            Y = lambda i: subst(ey, (P0, i))
            g = seg(q)
            x0, x1, y0, y1 = X(g), X(g + 1), Y(g), Y(g + 1)
            v = val(q)
            inr = z3.And(n >= 2, X(z3.IntVal(0)) <= q, q <= X(n - 1))
            out = [z3.ForAll([q], z3.Implies(inr, z3.And(0 <= g, g + 1 < n, x0 <= q, q <= x1,
                                                         z3.Or(z3.And(y0 <= v, v <= y1), z3.And(y1 <= v, v <= y0)),
                                                         z3.Implies(x1 > x0, (v - y0) * (x1 - x0) == (q - x0) * (y1 - y0)),
                                                         z3.Implies(q == x1, v == y1) if False else z3.BoolVal(True))), patterns=[val(q)])]
            return out

        (val, seg), s = libfn("interp_" + kind, [xs, ys], [((Real,), Real), ((Real,), Int)], ax)
        ctx.trusted.add("linear interpolation: inside the knots the value lies on the segment between two neighbouring knots")
        return val

    def f_interp(self, q, xs, ys, left=None, right=None):
        xs, ys = self.asarray(xs), self.asarray(ys)
        val = self.interp_fn(xs, ys)
        n = xs.shape[0]
        x0, x1 = R(xs.fn(0)), R(xs.fn(self.lib.subi(n, 1)))
        l = R(ys.fn(0)) if left is None else R(left)
        r = R(ys.fn(self.lib.subi(n, 1))) if right is None else R(right)
        f = lambda t: z3.If(R(t) < x0, l, z3.If(R(t) > x1, r, val(rd.arith(R(t)))))
        return self.map(f, q)

    def f_convolve(self, a, b, mode="full"):
        a, b = self.asarray(a), self.asarray(b)
        (c,), s = libfn("convolve_" + mode, [a, b], [((Int,), Real)])
        n, m = a.shape[0], b.shape[0]
        if mode == "valid":
            return Arr((self.lib.addi(self.lib.subi(n, m), 1),), lambda i: c(I_(i)))
        if mode == "same":
            return Arr((n,), lambda i: c(I_(i)))
        return Arr((self.lib.subi(self.lib.addi(n, m), 1),), lambda i: c(I_(i)))

    def f_linalg_inv(self, a):
        return self.matfn("inv", a)

    def f_linalg_cholesky(self, a):
        return self.matfn("cholesky", a)

    def matfn(self, name, a):
        a = self.asarray(a)
        (f,), s = libfn("linalg_" + name, [a], [((Int, Int), Real)])
        ctx.trusted.add(f"numpy.linalg.{name} is a function of the matrix")
        return Arr(a.shape, lambda i, j: f(I_(i), I_(j)))

    def f_issubdtype(self, a, b):
        return z3.Bool(f"issubdtype!{next(ctx.counter)}")

    # ---------------------------------------------------------------- scipy
    def sp(self, name, args, kw):
        args = [self.I.force(a) if isinstance(a, (Opt, Union)) else a for a in args]
        kw = {k: (self.I.force(a) if isinstance(a, (Opt, Union)) else a) for k, a in kw.items()}
        if name == "ndimage.gaussian_filter":
            a = self.asarray(args[0])
            sig = args[1] if len(args) > 1 else kw["sigma"]
            nd = len(a.shape)
            (f,), s = libfn("gaussian_filter", [a, sig, kw.get("mode")], [((Int,) * nd, Real)])
            ctx.trusted.add("scipy gaussian_filter is a function of (array, sigma, mode); non negative input gives non negative output")
            k = [z3.Int(f"gk{t}") for t in range(nd)]
            if nd == 1:
                fn = a.fn
                if ctx.entails(rd.FORALL(lambda i: R(fn(i)) >= 0, a.shape[0]), 1500):
                    ctx.assume(z3.ForAll(k, f(*k) >= 0, patterns=[f(*k)]))
            return Arr(a.shape, lambda *i: f(*[I_(x) for x in i]))
        if name == "stats.normaltest":
            a = self.asarray(args[0])
            (st, p), s = libfn("normaltest", [a], [((), Real), ((), Real)])
            ctx.trusted.add("scipy normaltest is a function of the array")
            return TupleV([st, p])
        if name == "interpolate.griddata":
            pts = self.asarray(args[0])
            vals = self.asarray(args[1])
            q = self.asarray(args[2])
            method = kw.get("method", "linear")
            (f, ix), s = libfn("griddata_" + str(method), [pts, vals, q], [((Int,), Real), ((Int,), Int)])
            ctx.trusted.add("scipy griddata is a function of (points, values, query, method)")
            return Arr((1,), lambda i: f(I_(i)))
        if name == "interpolate.interp1d":
            xs, ys = self.asarray(args[0]), self.asarray(args[1])
            kind = kw.get("kind", args[2] if len(args) > 2 else "linear")
            return Interp1d(self, xs, ys, kind, kw)
        if name == "integrate.simpson":
            ys = self.asarray(args[0])
            xs = self.asarray(kw.get("x", args[1] if len(args) > 1 else None))
            (v,), s = libfn("simpson", [ys, xs], [((), Real)])
            ctx.trusted.add("scipy simpson is a function of (ys, xs)")
            return v
        if name == "stats.norm.cdf":
            f = z3.Function("normcdf", Real, Real)
            return self.map(lambda v: f(R(v)), self.asarray(args[0]) if not is_num(args[0]) else args[0])
        raise Unsupported("scipy." + name)


class Interp1d:
    def __init__(self, np, xs, ys, kind, kw):
        self.np, self.xs, self.ys, self.kind, self.kw = np, xs, ys, kind, kw
        n = xs.shape[0]
        np.dim_eq(xs.shape[0], ys.shape[0])
        self.xs = Arr(xs.shape, xs.fn)
        self.ys = Arr(ys.shape, ys.fn)

    def __call__(self, q):
        np = self.np
        q = np.asarray(q)
        n = self.xs.shape[0]
        x0, x1 = R(self.xs.fn(0)), R(self.xs.fn(np.lib.subi(n, 1)))
        be = self.kw.get("bounds_error")
        fv = self.kw.get("fill_value")
        # the model of interp1d is for non decreasing knots
        mono = rd.FORALL(lambda i: R(self.xs.fn(i)) <= R(self.xs.fn(np.lib.addi(i, 1))), np.lib.subi(n, 1))
        if not ctx.entails(mono, 3000):
            ctx.notes.add("interp1d knots not shown to be sorted")
            ctx.tainted.add("interp1d-unsorted")
        val = np.interp_fn(self.xs, self.ys, self.kind)
        if fv is not None:
            if isinstance(fv, str):
                raise Unsupported("interp1d extrapolation")
            if isinstance(fv, TupleV):
                lo, hi = R(fv.items[0]), R(fv.items[1])
            else:
                lo = hi = R(fv)
            f = lambda t: z3.If(R(t) < x0, lo, z3.If(R(t) > x1, hi, val(rd.arith(R(t)))))
            return np.map(f, q)
        if be is False:
            raise Unsupported("interp1d giving NaN outside")
        if not ctx.spec:
            if isinstance(q, Arr):
                out = rd.EXISTS(lambda i: Or(R(q.fn(i)) < x0, R(q.fn(i)) > x1), q.shape[0])
            else:
                out = Or(R(q) < x0, R(q) > x1)
            if np.I.decide(out):
                raise PyRaise("ValueError", "interp1d out of range")
        return np.map(lambda t: val(rd.arith(R(t))), q)
