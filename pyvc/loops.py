"""Loops and comprehensions over symbolic sequences: summaries by fold schemas."""
from __future__ import annotations

import ast

import z3

from . import reduce as rd
from .core import *  # noqa
from .interp import Brk, CarryAtom, Cont, Poison, Ret, SymIter


class DPts:
    """pointwise updates of the entries of a dict family, at entry indices"""

    def __init__(self, base, pts):
        self.base, self.pts = base, tuple(pts)


class Flat:
    """concatenation of content(i) for i in range(n)"""

    def __init__(self, n, inner):
        self.n, self.inner = n, inner


def nested_uniq(s):
    """the sequences whose new items were appended to the carried list, or None"""
    if isinstance(s, Marker) and not s.delta and s.member is None:
        return []
    if isinstance(s, Uniq) and isinstance(s.inner, Cat) and isinstance(s.inner.parts[0], Marker) and not s.inner.parts[0].delta:
        return list(s.inner.parts[1:])
    return None


def guarded(c, g):
    if z3.is_true(g):
        return c
    if isinstance(c, Fam):
        return Fam(c.n, lambda i: [(And(B(h), g), v) for h, v in c.items(i)], False)
    if isinstance(c, Conc):
        return Fam(len(c.items), lambda i: [(g, c.items[int(num_const(i))])], False)
    raise Unsupported("guarded sequence")


def fam_of_values(n, fn, tag=None):
    return Fam(n, lambda i: [(True, fn(i))], True, tag)


def uniq_fam(I, f):
    def items(i):
        its = f.items(i)
        if len(its) != 1:
            raise Unsupported("uniqueness over multi-item family")
        g, v = its[0]
        dup = rd.EXISTS(lambda j: And(B(f.items(j)[0][0]), I.lib.eq(f.items(j)[0][1], v)), i)
        return [(And(B(g), Not(dup)), v)]

    return Fam(f.n, items, False, ("uniq", f))


def content_parts(I, c):
    if isinstance(c, Conc):
        return [("c", list(c.items))]
    if isinstance(c, Fam):
        n = num_const(c.n)
        if n is not None and n <= 12:
            out = []
            for i in range(int(n)):
                for g, v in c.items(i):
                    if conc_bool(z3.simplify(B(g))) is True:
                        out.append(v)
                    elif conc_bool(z3.simplify(B(g))) is False:
                        continue
                    elif I.decide(g):
                        out.append(v)
            return [("c", out)]
        return [("f", c)]
    if isinstance(c, Cat):
        out = []
        for p in c.parts:
            out.extend(content_parts(I, p))
        return out
    if isinstance(c, Uniq):
        ps = content_parts(I, c.inner)
        ps = [p for p in ps if not (p[0] == "c" and not p[1])]
        if len(ps) == 1 and ps[0][0] == "f":
            return [("f", uniq_fam(I, ps[0][1]))]
        raise Unsupported("uniq of composite sequence")
    if isinstance(c, Flat):
        raise Unsupported("iteration over a nested flattening")
    raise Unsupported(f"iteration over {type(c).__name__}")


def toiter(I, v):
    v = I.force(v)
    if isinstance(v, SymIter):
        return v
    if isinstance(v, TupleV):
        return SymIter([("c", list(v.items))])
    if isinstance(v, (list, tuple)) and not (v and v[0] == "slice"):
        return SymIter([("c", list(v))])
    if isinstance(v, (ListV, SetV)):
        if isinstance(v.c, Fam) and v.c.plain and getattr(v.c, "src", None) is None:
            v.c.src = (v, v.c)
        return SymIter(content_parts(I, v.c))
    if isinstance(v, Arr):
        n = num_const(v.shape[0])
        el = lambda i: I.lib.arr_row(v, i)
        if n is not None and n <= 12:
            return SymIter([("c", [el(i) for i in range(int(n))])])
        return SymIter([("f", fam_of_values(v.shape[0], el))])
    if isinstance(v, DictV):
        return SymIter(I.lib.dict_parts(v, lambda k, x: k))
    it = I.lib.iter_hook(v)
    if it is not None:
        return it
    raise Unsupported(f"iteration over {type(v).__name__}")


# --------------------------------------------------------------------- comprehensions


SKIP = object()


def comprehension(I, elt, gens, env):
    g = gens[0]
    it = toiter(I, I.eval(g.iter, env))
    parts = []

    def one(v):
        """contents produced for one value of the outer target (concrete paths)"""
        e2 = Env(parent=env, module=env.module, func=None)
        I.assign(g.target, v, e2)
        for c in g.ifs:
            if not I.truth(I.eval(c, e2)):
                return SKIP
        if len(gens) > 1:
            return comprehension(I, elt, gens[1:], e2)
        return I.eval(elt, e2)

    for kind, p in it.parts:
        if kind == "c":
            for v in p:
                r = one(v)
                if r is SKIP:
                    continue
                parts.append(r if len(gens) > 1 else Conc([r]))
        else:
            parts.append(fam_comp(I, p, one, len(gens) > 1))
    return flatten(parts)


def flatten(parts):
    out = []
    for p in parts:
        ps = p.parts if isinstance(p, Cat) else [p]
        for q in ps:
            if isinstance(q, Conc) and out and isinstance(out[-1], Conc):
                out[-1] = Conc(out[-1].items + q.items)
            elif isinstance(q, Conc) and not q.items:
                continue
            else:
                out.append(q)
    if not out:
        return Conc([])
    if len(out) == 1:
        return out[0]
    return Cat(out)


def run_generic(I, fam, fn):
    """explore fn(value, k) at a generic index; returns (k, outcomes) with facts generalised"""
    k = ctx.new_generic()
    ctx.generics.append(k)
    try:
        def thunk():
            its = fam.items(k)
            res = []
            for g, v in its:
                if I.decide(g):
                    res.append(fn(v))
                else:
                    res.append(SKIP)
            return res

        outs = ctx.explore(thunk, [And(0 <= k, k < I_(fam.n))])
    finally:
        ctx.generics.pop()
    return k, outs


def I_(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def generalise_facts(k, n, outs):
    rng = And(0 <= k, k < I_(n))
    for o in outs:
        c = And(*o.conds)
        for f in o.facts:
            g = Implies(c, f)
            if mentions(g, [k]):
                ctx.assume(z3.ForAll([k], Implies(rng, g)))
            else:
                ctx.assume(Implies(I_(n) > 0, g))


def handle_raises(I, k, n, outs):
    for o in outs:
        if o.kind == "raise":
            c = And(*o.conds)
            ex = rd.EXISTS(lambda i: subst(c, (k, i)) if mentions(c, [k]) else c, n)
            if I.decide(ex):
                raise PyRaise(o.value.kind, o.value.msg)


def fam_comp(I, fam, one, nested):
    if fam.plain and fam.tag == "identity":
        pass
    k, outs = run_generic(I, fam, one)
    generalise_facts(k, fam.n, outs)
    handle_raises(I, k, fam.n, outs)
    oks = [o for o in outs if o.kind == "ok"]
    if not oks:
        return Conc([])
    width = max(len(o.value) for o in oks)
    if width == 0:
        return Conc([])
    if width > 1:
        raise Unsupported("comprehension over a multi-item family")
    if nested:
        vals = [(And(*o.conds), o.value[0]) for o in oks if o.value[0] is not SKIP]
        if len(vals) == 1 and len(oks) == 1:
            inner = vals[0][1]
            if isinstance(inner, Fam) and inner.plain and not mentions(I_(inner.n), [k]):
                m = inner.n
                return Fam(I_(fam.n) * I_(m),
                           lambda i: [(True, subst_value(inner.items(I_(i) % I_(m))[0][1], [(k, I_(i) / I_(m))]))], True)
            if isinstance(inner, Conc) and all(True for _ in inner.items):
                m = len(inner.items)
                if m == 1:
                    return Fam(fam.n, lambda i: [(True, subst_value(inner.items[0], [(k, I_(i))]))], True)
            return Flat(fam.n, lambda i: subst_content(inner, [(k, I_(i))]))
        return Flat(fam.n, lambda i: subst_content(
            Cat([Fam(1, (lambda c=c, inn=inn: lambda j: [(c, inn)])()) for c, inn in vals]), [(k, I_(i))]))
    keep = [(And(*o.conds), o.value[0]) for o in oks if o.value[0] is not SKIP]
    if not keep:
        return Conc([])
    if len(keep) == len(oks):
        v = merge(keep)
        return Fam(fam.n, lambda i: [(True, subst_value(v, [(k, I_(i))]))], True)
    g = Or(*[c for c, _ in keep])
    v = merge(keep)
    return Fam(fam.n, lambda i: [(subst(g, (k, I_(i))), subst_value(v, [(k, I_(i))]))], False)


def dictcomp(I, e, env):
    if len(e.generators) != 1:
        raise Unsupported("nested dict comprehension")
    g = e.generators[0]
    it = toiter(I, I.eval(g.iter, env))
    d = DictV(DConc([]))

    def one(v):
        e2 = Env(parent=env, module=env.module)
        I.assign(g.target, v, e2)
        for c in g.ifs:
            if not I.truth(I.eval(c, e2)):
                return SKIP
        return TupleV([I.eval(e.key, e2), I.eval(e.value, e2)])

    for kind, p in it.parts:
        if kind == "c":
            for v in p:
                r = one(v)
                if r is not SKIP:
                    I.setitem(d, r.items[0], r.items[1])
        else:
            f = fam_comp(I, p, one, False)
            if isinstance(f, Conc):
                continue
            key = lambda i: f.items(i)[0][1].items[0]
            val = lambda i: f.items(i)[0][1].items[1]
            grd = lambda i: f.items(i)[0][0]
            if not injective(I, f.n, key, grd):
                raise Unsupported("dict comprehension with possibly repeated keys")
            new = DFam(f.n, key, val, grd, tag=object())
            if getattr(p, "has", None) is not None and f.plain and p.plain:
                i = ctx.new_generic()
                x, y = key(i), p.items(i)[0][1]
                if is_z3(x) and is_z3(y) and x.eq(y):
                    new.has = p.has
            d.c = new if isinstance(d.c, DConc) and not d.c.items else DLayers([d.c, new])
    return d


def injective(I, n, key, grd):
    a, b = ctx.new_generic("a"), ctx.new_generic("b")
    try:
        ka, kb = key(a), key(b)
        f = Implies(And(0 <= a, a < I_(n), 0 <= b, b < I_(n), a != b, B(grd(a)), B(grd(b))), Not(B(I.lib.eq(ka, kb))))
    except Unsupported:
        return False
    return ctx.entails(f, 3000)


# --------------------------------------------------------------------- for loops


def exec_for(I, st, env):
    li = I.loopinv.get(id(st))
    if li is not None:
        from .loopinv import exec_for_inv

        return exec_for_inv(I, st, env, li)
    it = toiter(I, I.eval(st.iter, env))

    def body(v):
        I.assign(st.target, v, env)
        I.exec_block(st.body, env)

    try:
        for kind, p in it.parts:
            if kind == "c":
                for v in p:
                    try:
                        body(v)
                    except Cont:
                        continue
            else:
                sym_loop(I, p, body, env, st)
    except Brk:
        return
    I.exec_block(st.orelse, env)


class Carry:
    def __init__(self, cell, name, init):
        self.cell, self.name, self.init = cell, name, init
        self.value = None  # havocked value
        self.terms = []  # z3 apps standing for it
        self.prefix = None  # closure k -> value
        self.kindv = None

    def loc(self):
        return (id(self.cell), self.name)


def kind_of(v):
    if v is None:
        return {"none"}
    if isinstance(v, float):
        return {"+inf" if v > 0 else "-inf"}
    if is_bool(v):
        return {"bool"}
    if is_int(v):
        return {"int"}
    if is_real(v):
        return {"real"}
    if isinstance(v, (str, Rope)):
        return {"rope"}
    if is_z3(v) and v.sort() == Str:
        return {"str"}
    if isinstance(v, Opt):
        return {"none"} | kind_of(v.val)
    if isinstance(v, Union):
        out = set()
        for _, x in v.alts:
            out |= kind_of(x)
        return out
    if isinstance(v, ListV):
        return {"list"}
    return {"other"}


def havoc_value(kinds, name):
    """(value, terms) of a fresh value covering the given kinds; None if not representable"""
    ks = set(kinds)
    terms = []

    def f(nm, sort):
        t = ctx.fresh(nm, sort)
        terms.append(t)
        return t

    none = "none" in ks
    ks.discard("none")
    infs = sorted(ks & {"+inf", "-inf"})
    ks -= set(infs)
    if ks == {"rope", "str"}:
        ks = {"rope"}
    if ks == {"int", "real"}:
        ks = {"real"}
    if len(ks) > 1:
        return None, []
    k = next(iter(ks)) if ks else None
    if k is None and not infs:
        v = None
    elif k is None:
        v = float(infs[0]) if len(infs) == 1 else None
    elif k == "real":
        v = f(name, Real)
    elif k == "int":
        v = f(name, Int)
    elif k == "bool":
        v = f(name, Bool)
    elif k == "str":
        v = f(name, Str)
    elif k == "rope":
        v = Rope([CarryAtom(name)])
    else:
        return None, []
    if infs and k is not None:
        alts = []
        rest = z3.BoolVal(True)
        for s in infs:
            b = f(name + s, Bool)
            alts.append((And(rest, b), float(s)))
            rest = And(rest, Not(b))
        alts.append((rest, v))
        v = Union(alts)
    if none:
        b = f(name + "_none", Bool)
        v = Opt(b, v) if v is not None else None
    return v, terms


def same_value(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))):
        return type(a) is type(b) and a == b
    return False


def sym_loop(I, fam, body, env, st):
    n = fam.n
    if conc_bool(z3.simplify(I_(n) <= 0)) is True:
        return
    carries = {}  # loc -> Carry
    pointwise = {}  # id(cell) -> cell (dict families updated at k only)
    keyed = {}  # id(cell) -> cell (objects whose fields are set by name)
    frames = {}  # id(cell) -> (cell, inverse): tables of which iteration k replaces the column it stands for
    pd = I.lib.pd
    temps = {}  # (id(env), name)
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12:
            raise Unsupported("loop analysis does not stabilise")
        snap = ctx.snapshot()
        k = ctx.new_generic()
        ctx.generics.append(k)
        entry = None
        try:
            # install havocked values
            for c in carries.values():
                c.terms = []
                if c.name is not None:
                    c.value, c.terms = havoc_value(c.kindv, f"{c.name}~")
                    if c.value is None and c.kindv != {"none"}:
                        c.value = Poison(f"loop carried {c.name}")
                    d = dict(c.cell.c)
                    d[c.name] = c.value
                    c.cell.c = d
                else:
                    nm = f"m{next(ctx.counter)}"
                    c.marker = nm
                    if isinstance(c.cell, Arr):
                        fn = ctx.freshfn("arr~", len(c.cell.c.shape), Real)
                        c.cell.c = ArrC(c.cell.c.shape, fn)
                        c.arrfn = fn
                    else:
                        c.cell.c = Marker(nm)
            for cell, inv in frames.values():
                cell.c = pd.loop_entry(cell.c, k, inv)
            for cell in keyed.values():
                from .objlib import Pending

                cell.c = Pending()
            entry = {id(cc): (cc, cc.c) for cc in ctx.cells}

            def thunk():
                for g, v in fam.items(k):
                    if not I.decide(g):
                        continue
                    own_elements(fam, k, v, entry)
                    try:
                        body(v)
                    except Cont:
                        continue
                    except Brk:
                        return ("break",)
                    except Ret as r:
                        return ("return", r.v)
                return ("next",)

            outs = ctx.explore(thunk, [And(0 <= k, k < I_(n))])
        finally:
            ctx.generics.pop()
            ctx.restore(snap)
        # find modifications
        changed = False
        for o in outs:
            if o.kind == "raise":
                continue
            for cell, new in o.state:
                old = entry[id(cell)][1]
                if new is old:
                    continue
                if isinstance(cell, Env):
                    for nm, v in new.items():
                        if nm in old:
                            if same_value(v, old[nm]):
                                continue
                            loc = (id(cell), nm)
                            c = carries.get(loc)
                            if c is None:
                                c = carries[loc] = Carry(cell, nm, old[nm])
                                c.kindv = kind_of(old[nm]) | kind_of(v)
                                changed = True
                            else:
                                ks = c.kindv | kind_of(v)
                                if ks != c.kindv:
                                    c.kindv = ks
                                    changed = True
                        else:
                            temps[(id(cell), nm)] = (cell, nm)
                else:
                    loc = (id(cell), None)
                    if loc in carries:
                        continue
                    if isinstance(new, DPts) and new.base is old and all(is_z3(ix) and ix.eq(k) for ix, _ in new.pts):
                        pointwise[id(cell)] = cell
                        continue
                    from .objlib import Keyed, Pending

                    if isinstance(cell, Obj) and (isinstance(new, Pending) or isinstance(new, Keyed) and new.base is old):
                        if id(cell) not in keyed:
                            keyed[id(cell)] = cell
                            changed = True
                        continue
                    if isinstance(cell, Obj):
                        raise Unsupported("object mutated in a loop")
                    if type(cell).__name__ == "DF":
                        u = getattr(new, "upd", None)
                        inv = pd.loop_inverse(fam, k, u[1], old) if u is not None and u[0] is old else None
                        if inv is None:
                            raise Unsupported("table changed in a loop")
                        if id(cell) not in frames:
                            changed = True
                        frames[id(cell)] = (cell, inv)
                        continue
                    pointwise.pop(id(cell), None)
                    carries[loc] = Carry(cell, None, old)
                    changed = True
        if not changed:
            break
    # variables that are 'other' typed and merely overwritten: poison after the loop
    summarise(I, fam, env, k, outs, carries, pointwise, temps, entry, st, frames, keyed)


def own_elements(fam, k, v, entry):
    """the loop variable stands for the k-th of the distinct objects this execution made and keeps in one container: it may be changed there"""
    src = getattr(fam, "src", None)
    if src is None or id(src[0]) not in entry or src[0].c is not src[1]:
        return
    hold, content = src
    objs = [x for x in (v.items if isinstance(v, TupleV) else [v]) if isinstance(x, Obj) and x.owned == "elem"]
    if len(objs) != 1:
        return
    for cell, c in entry.values():
        if cell is hold:
            continue
        if c is fam and not any(x is cell for e, d in entry.values() if isinstance(e, (Env, Obj)) and isinstance(d, dict) for x in d.values()):
            continue  # the sequence being run through, which nothing else names
        if isinstance(cell, (DictV, ListV, SetV)) and reaches(c, k, objs[0].cls):
            return
        if isinstance(cell, (Env, Obj)) and isinstance(c, dict) and any(
                isinstance(x, Obj) and x.owned in ("made", "elem") and x.cls is objs[0].cls or isinstance(x, TupleV) and any(isinstance(y, Obj) and y.owned for y in x.items)
                for x in c.values()):
            return
    objs[0].origin = (hold, content, k)
    objs[0].orig_c = objs[0].c


def reaches(c, k, cls):
    """may a container's content hold objects of the class made by this execution?"""
    nested = isinstance(c, (Fam, DFam))  # (a container in a concrete one is a cell of its own)
    if isinstance(c, Conc):
        vals = list(c.items)
    elif isinstance(c, DConc):
        vals = [x for _, x in c.items]
    elif isinstance(c, DFam):
        vals = [c.val(k)]
    elif isinstance(c, Fam):
        vals = [x for _, x in c.items(k)]
    else:
        return not isinstance(c, Marker)

    def held(x):
        if isinstance(x, Obj):
            return x.owned is not None and x.cls is cls
        if isinstance(x, (TupleV, tuple, list)):
            return any(held(y) for y in (x.items if isinstance(x, TupleV) else x))
        return isinstance(x, (Union, Opt)) or nested and isinstance(x, (ListV, DictV, SetV))

    return any(held(x) for x in vals)


def summarise(I, fam, env, k, outs, carries, pointwise, temps, entry, st, frames, keyed):
    n = I_(fam.n)
    rng = And(0 <= k, k < n)
    paths = []
    for o in outs:
        st_ = {id(c): v for c, v in o.state}
        paths.append(dict(cond=And(*o.conds), facts=list(o.facts), kind=o.kind, value=o.value, state=st_, newcells=o.newcells))
    normal = [p for p in paths if p["kind"] == "ok" and p["value"][0] == "next"]
    abrupt = [p for p in paths if not (p["kind"] == "ok" and p["value"][0] == "next")]

    # ---- element objects mutated in place (families of fresh objects held by dict cells)
    elem_updates = {}
    for p in paths:
        for cell, content in p["newcells"]:
            if isinstance(cell, Obj) and cell.origin is not None and content is not cell.orig_c:
                hold, tag, ix = cell.origin
                if not (is_z3(ix) and ix.eq(k)):
                    raise Unsupported("mutation of another element of a family")
                elem_updates.setdefault(id(hold), (hold, tag, []))[2].append((p, cell, content))
    unsolved = dict(carries)

    def newval(p, c):
        if c.name is not None:
            return p["state"].get(id(c.cell), c.cell_entry)[c.name]
        return p["state"].get(id(c.cell), c.cell_entry)

    for c in carries.values():
        c.cell_entry = entry[id(c.cell)][1]

    def unsolved_names():
        return {t.decl().name() for c in unsolved.values() for t in c.terms}

    def dep(e):
        names = unsolved_names()
        return bool(names) and is_z3(e) and occurs(e, names)

    def dep_any(v, names):
        ts = value_terms(v)
        if ts is None:
            return True
        return any(occurs(t, names) for t in ts)

    def substitute_solution(c):
        """replace the havocked terms of c by its prefix value at k everywhere"""
        pv = c.prefix(k)
        pairs = unify_terms(c.value, pv)
        if pairs is None:
            return False
        for p in paths:
            p["cond"] = z3.simplify(subst(p["cond"], *pairs)) if pairs else p["cond"]
            p["facts"] = [subst(f, *pairs) for f in p["facts"]]
            p["state"] = {i: subst_state(s, pairs) for i, s in p["state"].items()}
            if p["kind"] == "ok" and p["value"][0] == "return":
                p["value"] = ("return", subst_value(p["value"][1], pairs))
        return True

    progress = True
    while progress and unsolved:
        progress = False
        for loc, c in list(unsolved.items()):
            if c.name is None:
                continue
            r = solve_scalar(I, c, [(p["cond"], newval(p, c)) for p in normal], k, n, unsolved_names())
            if r is not None:
                c.prefix = r
                del unsolved[loc]
                if not substitute_solution(c):
                    unsolved[loc] = c
                    c.prefix = None
                    continue
                progress = True
    scal = [c for c in unsolved.values() if c.name is not None]
    groups_facts = []
    if scal:
        groups_facts = record_tracking(I, scal, normal, newval, k, n)
        for c in scal:
            if c.prefix is None:
                # sound over-approximation: an unconstrained value at every iteration
                v = c.value
                if isinstance(v, Poison):
                    c.prefix = (lambda v: lambda i: v)(v)
                else:
                    c.prefix = (lambda v, init: lambda i: merge_init(v, init, i, k))(v, c.init)
                    ctx.notes.add(f"loop variable {c.name} over-approximated")
                    ctx.tainted.add("loop-havoc")
    # ---- facts hold at every iteration
    for p in normal + abrupt:
        for f in p["facts"]:
            g = Implies(p["cond"], f)
            if mentions(g, [k]):
                # abrupt iterations do not happen after the first abrupt one: only keep definitional facts
                ctx.assume(z3.ForAll([k], Implies(rng, g)))
            else:
                ctx.assume(Implies(n > 0, g))

    # ---- abrupt exits
    end = n
    chosen = None
    if abrupt:
        ab = Or(*[p["cond"] for p in abrupt])
        abf = lambda i: subst(ab, (k, i)) if mentions(ab, [k]) else ab
        if I.decide(rd.EXISTS(abf, n)):
            kb = rd.FIRST(abf, n)
            ctx.assume(And(0 <= kb, kb < n, abf(kb)))
            for p in abrupt[:-1]:
                if I.decide(subst(p["cond"], (k, kb))):
                    chosen = p
                    break
            else:
                chosen = abrupt[-1]
                ctx.assume(subst(chosen["cond"], (k, kb)))
            end = kb
        else:
            j = ctx.new_generic("q")
            ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), Not(abf(j)))) if not z3.is_false(ab) else True)
    at = lambda v, i: subst_value(v, [(k, I_(i))])
    for gf in groups_facts:
        ctx.assume(gf(end))

    # ---- containers
    def container_result(c, upto):
        cell = c.cell
        if isinstance(cell, Env):
            return None
        if isinstance(cell, Arr):
            fn = ctx.freshfn("arrend", len(cell.c.shape), Real)
            ctx.tainted.add("loop-havoc")
            return ArrC(entry_init(c).shape, fn)
        deltas = []
        nest = [nested_uniq(p["state"].get(id(cell), c.cell_entry)) for p in normal]
        if any(x for x in nest) and all(x is not None for x in nest):
            # every iteration adds the not yet present items of a sequence
            if not (isinstance(c.init, Conc) and not c.init.items):
                raise Unsupported("first occurrences after other items")
            parts = []
            for p, xs in zip(normal, nest):
                cnd = p["cond"] if len(normal) > 1 else z3.BoolVal(True)
                parts.extend(guarded(x, cnd) for x in xs)
            inner = parts[0] if len(parts) == 1 else Cat(parts)
            return Uniq(Flat(upto, lambda i: subst_content(inner, [(k, I_(i))])))
        for p in normal:
            s = p["state"].get(id(cell), c.cell_entry)
            if not isinstance(s, Marker):
                raise Unsupported("container reassigned in loop")
            deltas.append((p["cond"], s.delta, s))
        members = [s.member for _, _, s in deltas if s.member is not None]
        init = c.init
        if isinstance(cell, (ListV, SetV)):
            width = max((len(d) for _, d, _ in deltas), default=0)
            uniq = None
            if members:
                mk = members[0]
                ok = True
                for cnd, d, s in deltas:
                    if len(d) == 1:
                        ok = ok and ctx_implies(cnd, Not(mk[1]), rng) and same_item(I, d[0], mk[0])
                    elif len(d) > 1:
                        ok = False
                if not ok:
                    raise Unsupported("membership test on a list built by the loop")
                uniq = mk
                # guard: everything but the membership literal
                lits = [subst(cnd, (mk[1], z3.BoolVal(False))) for cnd, d, _ in deltas if len(d) == 1]
                if any(occurs(x, {mk[1].decl().name()}) for x in lits):
                    raise Unsupported("membership test")
                g = z3.simplify(Or(*lits)) if lits else z3.BoolVal(False)
                item = merge([(subst(cnd, (mk[1], z3.BoolVal(False))), d[0]) for cnd, d, _ in deltas if len(d) == 1])
                f = Fam(upto, lambda i: [(subst(g, (k, I_(i))), at(item, i))], z3.is_true(g))
                res = Uniq(cat(init, f))
                return res
            if width == 0:
                return init
            if all(len(d) == width for _, d, _ in deltas) and True:
                cols = [merge([(cnd, d[j]) for cnd, d, _ in deltas]) for j in range(width)]
                full = simp_true(Or(*[cnd for cnd, _, _ in deltas]), rng)
                gd = z3.BoolVal(True) if (full or not abrupt or True) else None
                f = Fam(upto, lambda i: [(True, at(v, i)) for v in cols], width == 1)
            else:
                cols = [(cnd, v) for cnd, d, _ in deltas for v in d]
                if width == 1:
                    g = Or(*[cnd for cnd, _ in cols])
                    v = merge(cols)
                    f = Fam(upto, lambda i: [(subst(g, (k, I_(i))), at(v, i))], False)
                else:
                    f = Fam(upto, lambda i: [(subst(cnd, (k, I_(i))), at(v, i)) for cnd, v in cols], False)
            return cat(init, f)
        if isinstance(cell, DictV):
            adds = [(cnd, overwrite(I, d)) for cnd, d, _ in deltas]
            if any(len(d) > 1 for _, d in adds):
                raise Unsupported("several dict keys set per iteration")
            ent = [(cnd, d[0]) for cnd, d in adds if d]
            if not ent:
                return init
            key = merge([(cnd, kv[0]) for cnd, kv in ent])
            val = merge([(cnd, kv[1]) for cnd, kv in ent])
            g = Or(*[cnd for cnd, _ in ent]) if len(ent) < len(adds) else z3.BoolVal(True)
            keyf = lambda i: at(key, i)
            gf = lambda i: subst(g, (k, I_(i)))
            if not injective(I, upto, keyf, gf):
                raise Unsupported("dict built with possibly repeated keys")
            new = DFam(upto, keyf, lambda i: at(val, i), gf, tag=object())
            if isinstance(init, DConc) and not init.items:
                return new
            return DLayers([init, new])
        raise Unsupported(f"loop modifies {type(cell).__name__}")

    results = []
    for c in list(carries.values()):
        if c.name is None:
            results.append((c, container_result(c, end)))

    # ---- install final state
    def set_scalar(c, v):
        d = dict(c.cell.c)
        d[c.name] = v
        c.cell.c = d

    for c in carries.values():
        if c.name is not None:
            set_scalar(c, c.prefix(end))
    for c, r in results:
        c.cell.c = r
    for cell, inv in frames.values():
        upd = []
        for p in normal + ([chosen] if chosen else []):
            u = getattr(p["state"].get(id(cell)), "upd", None)
            if u is not None:
                upd.append((p["cond"], u[2], u[3]))
        cell.c = I.lib.pd.loop_exit(cell.c, k, inv, end if chosen is None else end + 1, upd)
    for cell in keyed.values():
        from .objlib import Pending

        if abrupt:
            raise Unsupported("fields set by name in a loop that may stop early")
        writes = []
        for p in normal:
            c = p["state"].get(id(cell))
            if isinstance(c, Pending) and c.write is not None:
                writes.append((p["cond"], c.write))
        cell.c = I.lib.ob.keyed_result(cell, cell.c, k, fam, n, writes)
    for cell in pointwise.values():
        base = cell.c
        upd = []
        for p in normal + ([chosen] if chosen else []):
            s = p["state"].get(id(cell))
            if isinstance(s, DPts):
                upd.append((p["cond"], s.pts[-1][1]))
        cell.c = pointwise_update(base, upd, k, end if chosen is None else end + 1)
    for hold, tag, lst in elem_updates.values():
        upd = []
        for p, cell, content in lst:
            o = Obj(cell.cls, content, cell.sym, owned="made")
            upd.append((p["cond"], o))
        apply_elem_updates(I, hold, tag, upd, k, end if chosen is None else end + 1)
    # ---- temporaries: value of the last iteration when unconditional
    for cell, nm in temps.values():
        vals = []
        ok = True
        for p in normal:
            s = p["state"].get(id(cell))
            if s is not None and nm in s:
                vals.append((p["cond"], s[nm]))
            else:
                ok = False
        d = dict(cell.c)
        d[nm] = Poison("loop temporary")
        if ok and vals and chosen is None:
            try:
                v = merge(vals)
                if is_z3(v) or isinstance(v, (int, str)):
                    if ctx.frames and conc_bool(z3.simplify(n > 0)) is True:
                        d[nm] = at(v, n - 1)
            except Unsupported:
                pass
        cell.c = d
    if chosen is not None:
        p = chosen
        kb = end
        if p["kind"] == "raise":
            raise PyRaise(p["value"].kind, p["value"].msg)
        # state of the aborted iteration
        for c in carries.values():
            s = p["state"].get(id(c.cell), c.cell_entry)
            if c.name is not None:
                set_scalar(c, at(s[c.name], kb))
            elif isinstance(s, Marker):
                if s.delta:
                    apply_delta(I, c.cell, [subst_value(d, [(k, kb)]) for d in s.delta])
        for cell, nm in temps.values():
            s = p["state"].get(id(cell))
            if s is not None and nm in s:
                d = dict(cell.c)
                d[nm] = at(s[nm], kb)
                cell.c = d
        if p["value"][0] == "return":
            raise Ret(at(p["value"][1], kb))
        raise Brk()


def merge_init(v, init, i, k):
    if num_const(i) == 0:
        return init
    return subst_value(v, [(k, I_(i))])


def entry_init(c):
    return c.init


def cat(a, b):
    return flatten([a, b])


def simp_true(f, rng):
    return z3.is_true(z3.simplify(f))


def ctx_implies(a, b, rng):
    return ctx.entails(Implies(And(rng, a), b), 1000)


def overwrite(I, d):
    """the entries one iteration leaves behind: a later value for the same key replaces the earlier one"""
    out = []
    for k, v in d:
        for j, (k2, _) in enumerate(out):
            same = conc_bool(z3.simplify(B(I.lib.eq(k, k2))))
            if same:
                out[j] = (k2, v)
                break
        else:
            out.append((k, v))
    return out


def same_item(I, a, b):
    t = I.lib.eq(a, b)
    return conc_bool(z3.simplify(B(t))) is True


def apply_delta(I, cell, delta):
    for d in delta:
        if isinstance(cell, DictV):
            I.setitem(cell, d[0], d[1])
        elif isinstance(cell, (ListV, SetV)):
            cell.c = cat(cell.c, Conc([d]))
        else:
            raise Unsupported("abrupt container update")


def pointwise_update(base, upd, k, upto):
    if not upd:
        return base
    if isinstance(base, DFam):
        def val(i):
            i = I_(i)
            old = base.val(i)
            alts = [(subst(c, (k, i)), subst_value(v, [(k, i)])) for c, v in upd]
            rest = Not(Or(*[c for c, _ in alts]))
            if conc_bool(z3.simplify(rest)) is not False:
                alts = alts + [(rest, old)]
            return merge(alts)

        return DFam(base.n, base.key, val, base.guard, base.tag)
    raise Unsupported("pointwise update of a composite dict")


def apply_elem_updates(I, hold, tag, upd, k, upto):
    def mk(oldval):
        def val(i):
            i = I_(i)
            old = oldval(i)
            alts = [(subst(c, (k, i)), subst_value(o, [(k, i)])) for c, o in upd]
            names = set()
            for _, o in alts:
                names |= set(o.c)
            names |= set(old.c)
            rest = Not(Or(*[c for c, _ in alts]))
            fields = {}
            for nm in names:
                lst = []
                for c, o in alts:
                    lst.append((c, o.c[nm] if nm in o.c else I.getattr(old, nm)))
                if conc_bool(z3.simplify(rest)) is not False:
                    lst.append((rest, old.c[nm] if nm in old.c else I.getattr(old, nm)))
                fields[nm] = merge(lst)
            return Obj(old.cls, fields, old.sym, owned="elem")

        return val

    c = hold.c
    if isinstance(c, DFam) and c is tag:
        hold.c = DFam(c.n, c.key, mk(c.val), c.guard, c.tag)
    elif isinstance(c, Fam) and c is tag and c.plain:
        v2 = mk(lambda i: c.items(i)[0][1])
        hold.c = Fam(c.n, lambda i: [(True, v2(i))], True, c.tag)
    else:
        raise Unsupported("elements of a composite container mutated in a loop")


def value_terms(v):
    """z3 terms a scalar-like value is made of; None if unknown"""
    if is_z3(v):
        return [v]
    if v is None or isinstance(v, (int, str, bool, float)):
        return []
    if isinstance(v, Opt):
        a = value_terms(v.val)
        return None if a is None else [v.none] + a
    if isinstance(v, Union):
        out = []
        for c, x in v.alts:
            a = value_terms(x)
            if a is None:
                return None
            out += [c] + a
        return out
    if isinstance(v, TupleV):
        out = []
        for x in v.items:
            a = value_terms(x)
            if a is None:
                return None
            out += a
        return out
    return None


def unify_terms(hv, pv):
    """pairs replacing the terms of the havocked value hv by those of pv"""
    if is_z3(hv):
        if hv.sort() == Real and is_num(pv):
            return [(hv, R(pv))]
        if hv.sort() == Int and is_int(pv):
            return [(hv, I_(pv))]
        if hv.sort() == Bool and is_bool(pv):
            return [(hv, B(pv))]
        if hv.sort() == Str and is_strv(pv):
            return [(hv, S(pv))]
        return None
    if hv is None and pv is None:
        return []
    if isinstance(hv, Rope) and isinstance(pv, (Rope, str)):
        return []
    if isinstance(hv, Opt):
        if pv is None:
            return [(hv.none, z3.BoolVal(True))]
        if isinstance(pv, Opt):
            r = unify_terms(hv.val, pv.val)
            return None if r is None else [(hv.none, pv.none)] + r
        r = unify_terms(hv.val, pv)
        return None if r is None else [(hv.none, z3.BoolVal(False))] + r
    if isinstance(hv, Union) and isinstance(pv, Union) and len(hv.alts) == len(pv.alts):
        out = []
        for (c1, v1), (c2, v2) in zip(hv.alts[:-1], pv.alts[:-1]):
            # first alternative's condition is the fresh boolean (possibly conjoined)
            b = [t for t in consts_apps(c1)]
            if not b:
                return None
            out.append((b[-1], B(c2)))
        r = unify_terms(hv.alts[-1][1], pv.alts[-1][1])
        return None if r is None else out + r
    if isinstance(hv, Union) and not isinstance(pv, (Union, Opt)):
        out = []
        for c1, v1 in hv.alts[:-1]:
            b = consts_apps(c1)
            out.append((b[-1], z3.BoolVal(isinstance(pv, float) and pv == v1)))
        if isinstance(pv, float):
            return out
        r = unify_terms(hv.alts[-1][1], pv)
        return None if r is None else out + r
    return None


def consts_apps(e):
    out = []

    def go(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == Bool:
            out.append(t)
            return
        for c in t.children():
            go(c)

    go(e)
    return out


def subst_state(s, pairs):
    if not pairs:
        return s
    if type(s).__name__ == "Pending":
        return type(s)(None if s.write is None else tuple(subst_value(x, pairs) for x in s.write))
    if isinstance(s, dict):
        return {a: (v if isinstance(v, Mut) else subst_value(v, pairs)) for a, v in s.items()}
    if isinstance(s, Marker):
        return Marker(s.name, [subst_value(d, pairs) for d in s.delta],
                      None if s.member is None else tuple(subst_value(x, pairs) for x in s.member))
    if isinstance(s, DPts):
        return DPts(s.base, [(subst_value(i, pairs), subst_value(v, pairs)) for i, v in s.pts])
    return s


# --------------------------------------------------------------------- scalar fold schemas


def solve_scalar(I, c, news, k, n, names):
    """closed form of the carried variable at the start of iteration i, or None"""
    own = {t.decl().name() for t in c.terms}
    others = names - own
    upd, keep = [], []
    for cond, v in news:
        (keep if same_value(v, c.value) else upd).append((cond, v))
    if not upd:
        return lambda i: c.init
    conds = [cd for cd, _ in upd]
    allc = [cd for cd, _ in news]
    foreign = any(occurs(cd, others) for cd in allc) if others else False
    init = c.init
    at = lambda v, i: subst_value(v, [(k, I_(i))])

    # rope accumulation: every path appends to the carried text
    if isinstance(c.value, Rope) and isinstance(init, (str, Rope)):
        atom = c.value.parts[0]
        deltas = []
        for cd, v in news:
            if not isinstance(v, Rope) or not v.parts or v.parts[0] is not atom:
                return None
            d = Rope(v.parts[1:])
            if any(p is atom for p in d.parts):
                return None
            deltas.append((cd, d))
        if foreign:
            return None
        if any(occurs(cd, own) for cd in allc if own):
            return None
        if len(deltas) == 1:
            one, g = deltas[0][1], z3.BoolVal(True)
            rf = lambda j: at(one, j)
        else:
            m = merge(deltas)
            rf = lambda j: at(m, j)
        return lambda i: Rope([init if isinstance(init, str) else init, FamPart(I_(i), rf, lambda j: True)])
    if any(value_terms(v) is None for _, v in upd):
        # non scalar: last writer only when unconditional and independent
        if not keep and not foreign and not any(occurs(cd, own) for cd in allc if own):
            v = merge(upd)
            return lambda i: init if num_const(i) == 0 else LastOf(I_(i), init, lambda j: at(v, j)).resolve(I)
        return None

    def dep_v(v, nm):
        return bool(nm) and any(occurs(t, nm) for t in (value_terms(v) or []))

    own_in_cond = any(occurs(cd, own) for cd in allc) if own else False
    own_in_val = any(dep_v(v, own) for _, v in upd)
    if foreign or any(dep_v(v, others) for _, v in upd):
        return None
    # last writer
    if not own_in_cond and not own_in_val:
        u = Or(*conds)
        v = merge(upd)
        uf = lambda j: subst(u, (k, j)) if mentions(u, [k]) else u

        def last(i):
            if num_const(i) == 0:
                return init
            i = I_(i)
            if not keep:
                return merge([(i > 0, at(v, i - 1)), (Not(i > 0), init)])
            ex = rd.EXISTS(uf, i)
            ix = rd.LAST(uf, i)
            return merge([(ex, at(v, ix)), (Not(ex), init)])

        return last
    # numeric carried term
    X = c.value
    if is_z3(X) and X.sort() in (Real, Int):
        if not own_in_cond:
            ds = []
            ok = True
            for cd, v in news:
                d = rd.arith(R(v) - R(X))
                if occurs(d, own):
                    ok = False
                    break
                ds.append((cd, d))
            if ok:
                e = merge(ds)
                pre = rd.PREFIX(lambda j: at(e, j))
                isint = X.sort() == Int
                if isint:
                    return lambda i: z3.ToInt(R(init) + pre(I_(i)))
                return lambda i: rd.arith(R(init) + pre(I_(i)))
        r = solve_ext(I, c, X, None, news, k, n, own)
        if r is not None:
            return r
    if isinstance(X, (Opt, Union)):
        core = X.val if isinstance(X, Opt) else X.alts[-1][1]
        if is_z3(core) and core.sort() in (Real, Int):
            r = solve_ext(I, c, X, core, news, k, n, own)
            if r is not None:
                return r
    # boolean or / and accumulation
    if is_z3(X) and X.sort() == Bool:
        m = B(merge(news))
        t, f = z3.simplify(subst(m, (X, z3.BoolVal(True)))), z3.simplify(subst(m, (X, z3.BoolVal(False))))
        if z3.is_true(t) and not occurs(f, own):
            return lambda i: Or(B(init), rd.EXISTS(lambda j: at(f, j), I_(i)))
        if z3.is_false(f) and not occurs(t, own):
            return lambda i: And(B(init), rd.FORALL(lambda j: at(t, j), I_(i)))
    return None


class LastOf:
    def __init__(self, n, init, fn):
        self.n, self.init, self.fn = n, init, fn

    def resolve(self, I):
        if I.decide(self.n > 0):
            return self.fn(self.n - 1)
        return self.init


def solve_ext(I, c, X, core, news, k, n, own):
    """max / min tracking:  new = m(k) if m(k) better than X (or X unset) else X"""
    merged = merge(news)
    # candidate terms: values assigned that do not mention X
    cands = []
    for _, v in news:
        for t in value_terms(v) or []:
            if t.sort() in (Real, Int) and not occurs(t, own):
                cands.append(t)
            elif t.sort() in (Real, Int):
                # If(c, a, b) leaves
                for leaf in leaves(t):
                    if not occurs(leaf, own):
                        cands.append(leaf)
    seen = []
    for t in cands:
        if not any(t.eq(s) for s in seen):
            seen.append(t)
    x = core if core is not None else X
    for cand in seen[:4]:
        for kind in ("MAX", "MIN"):
            better = (R(cand) > R(x)) if kind == "MAX" else (R(cand) < R(x))
            # guard: iterations that participate at all
            for gmode in ("all", "guard"):
                if gmode == "all":
                    g = z3.BoolVal(True)
                else:
                    # participates iff the unset value would be replaced / extreme value would be replaced
                    if core is not None:
                        unset = unset_pairs(X)
                    else:
                        continue
                    g = Or(*[subst(cd, *unset) for cd, v in news if not same_value(v, X)])
                    g = z3.simplify(g)
                    if occurs(g, own):
                        continue
                if core is None:
                    exp = If(And(g, better), R(cand), R(X))
                    ok = ctx.entails(z3.ForAll([k], True) if False else Implies(And(0 <= k, k < I_(n)), R(merged) == exp), 2000) if is_num(merged) else False
                    if not ok:
                        continue
                    init = c.init

                    def pre(i, cand=cand, kind=kind, g=g, init=init):
                        i = I_(i)
                        gf = lambda j: subst(g, (k, j)) if mentions(g, [k]) else g
                        ff = lambda j: R(subst(cand, (k, j)))
                        m, _ = rd.EXT(kind, ff, i, gf)
                        ex = rd.EXISTS(gf, i)
                        b = (m > R(init)) if kind == "MAX" else (m < R(init))
                        r = If(And(ex, b), m, R(init))
                        return r

                    return pre
                # Opt / Union: X unset (None / worst infinity) or core
                un = unset_cond(X, kind)
                if un is None:
                    continue
                uncond, unval = un
                if not same_value(c.init, unval):
                    continue
                eqt = value_is(merged, And(g, Or(uncond, better)), R(cand), X, uncond, core)
                if eqt is None or not ctx.entails(Implies(And(0 <= k, k < I_(n)), eqt), 3000):
                    continue

                def pre2(i, cand=cand, kind=kind, g=g, unval=unval):
                    i = I_(i)
                    if num_const(i) == 0:
                        return unval
                    gf = lambda j: subst(g, (k, j)) if mentions(g, [k]) else g
                    m, _ = rd.EXT(kind, lambda j: R(subst(cand, (k, j))), i, gf)
                    ex = rd.EXISTS(gf, i)
                    if unval is None:
                        return Opt(Not(ex), m)
                    return Union([(Not(ex), unval), (ex, m)])

                return pre2
    return None


def leaves(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return leaves(t.arg(1)) + leaves(t.arg(2))
    return [t]


def unset_pairs(X):
    if isinstance(X, Opt):
        return [(X.none, z3.BoolVal(True))]
    out = []
    for c1, _ in X.alts[:-1]:
        b = consts_apps(c1)
        out.append((b[-1], z3.BoolVal(True)))
        break
    return out


def unset_cond(X, kind):
    if isinstance(X, Opt):
        if isinstance(X.val, Union):
            return None
        return X.none, None
    if isinstance(X, Union) and len(X.alts) == 2:
        c0, v0 = X.alts[0]
        if isinstance(v0, float):
            if (kind == "MAX" and v0 < 0) or (kind == "MIN" and v0 > 0):
                return c0, v0
    return None


def value_is(merged, cond, cand, X, uncond, core):
    """formula: merged == (cand if cond else X)"""
    def isunset(v):
        if v is None:
            return z3.BoolVal(True)
        if isinstance(v, float):
            return z3.BoolVal(True)
        if isinstance(v, Opt):
            return v.none
        if isinstance(v, Union):
            return Or(*[c for c, x in v.alts if isinstance(x, float) or x is None])
        return z3.BoolVal(False)

    def num(v):
        if is_num(v) and not isinstance(v, float):
            return R(v)
        if isinstance(v, Opt):
            return num(v.val)
        if isinstance(v, Union):
            xs = [(c, num(x)) for c, x in v.alts if not isinstance(x, float) and x is not None]
            if any(x is None for _, x in xs):
                return None
            return merge(xs) if xs else z3.RealVal(0)
        return z3.RealVal(0)

    m = num(merged)
    if m is None:
        return None
    un = isunset(merged)
    return And(Implies(cond, And(Not(un), m == cand)),
               Implies(Not(cond), And(un == B(uncond), Implies(Not(B(uncond)), m == R(core)))))


def record_tracking(I, scal, normal, newval, k, n):
    """group of variables updated together: keep the ghost index of the last update, and the
    fact that no earlier iteration would still update, when that is inductive (checked)"""
    group = []
    upd_cond = None
    for c in scal:
        if isinstance(c.value, Poison) or c.terms == []:
            continue
        own_all = {t.decl().name() for d in scal for t in d.terms}
        ups = [(p["cond"], newval(p, c)) for p in normal if not same_value(newval(p, c), c.value)]
        if not ups or any(value_terms(v) is None for _, v in ups):
            continue
        if any(any(occurs(t, own_all) for t in value_terms(v)) for _, v in ups):
            continue
        u = z3.simplify(Or(*[cd for cd, _ in ups]))
        if upd_cond is None:
            upd_cond = u
        elif not upd_cond.eq(u) and not ctx.entails(upd_cond == u, 1000):
            continue
        group.append((c, merge(ups)))
    if not group:
        return []
    own = {t.decl().name() for c, _ in group for t in c.terms}
    rng = And(0 <= k, k < I_(n))
    # values of the group as functions of the number of iterations done
    at = lambda v, i: subst_value(v, [(k, I_(i))])
    nm = next(ctx.counter)
    gfn = ctx.freshfn(f"lastupd{nm}", 1, Int)
    ufn = ctx.freshfn(f"updated{nm}", 1, Bool)
    facts = []
    for c, v in group:
        def pre(i, c=c, v=v):
            if num_const(i) == 0:
                return c.init
            i = I_(i)
            return merge([(ufn(i), at(v, gfn(i))), (Not(ufn(i)), c.init)])

        c.prefix = pre
    cur = [(c, v) for c, v in group]

    def inst(e, i, envv):
        """update condition at iteration i with the group's values given by envv"""
        pairs = []
        for c, _ in cur:
            r = unify_terms(c.value, envv(c))
            if r is None:
                return None
            pairs += r
        e2 = subst(e, *pairs)
        return subst(e2, (k, I_(i)))

    # invariant part 1: last update happened at an iteration where it could (for some earlier state)
    other = [p for p in normal]

    def inv1(end):
        i = I_(end)
        g = gfn(i)
        j = [z3.Const(f"old{next(ctx.counter)}", t.sort()) for c, _ in cur for t in c.terms]
        ts = [t for c, _ in cur for t in c.terms]
        w = subst(upd_cond, *zip(ts, j)) if ts else upd_cond
        w = subst(w, (k, g))
        ex = z3.Exists(j, w) if j else w
        return Implies(ufn(i), And(0 <= g, g < i, ex))

    facts.append(inv1)
    # invariant part 2: nothing seen so far would still update
    i1 = ctx.new_generic("i")
    try:
        still = lambda i, envv: inst(upd_cond, i, envv)
        hv = lambda c: c.value
        step_new = {id(c): v for c, v in group}
        nv = lambda c: step_new[id(c)]
        a = still(i1, hv)
        b = still(i1, nv)
        c0 = still(k, nv)
        if a is not None and b is not None and c0 is not None:
            pre = And(rng, 0 <= i1, i1 < k, Not(a), upd_cond)
            if ctx.entails(Implies(pre, Not(b)), 3000) and ctx.entails(Implies(And(rng, upd_cond), Not(c0)), 3000):
                def inv2(end):
                    q = ctx.new_generic("q")
                    e = inst(upd_cond, q, lambda c: c.prefix(I_(end)))
                    return z3.ForAll([q], Implies(And(0 <= q, q < I_(end)), Not(e)))

                facts.append(inv2)
    except Unsupported:
        pass
    return facts


# --------------------------------------------------------------------- while loops


def exec_while(I, st, env):
    li = I.loopinv.get(id(st))
    if li is None:
        raise Unsupported("a while loop without an invariant")
    from .loopinv import exec_while_inv

    return exec_while_inv(I, st, env, li)
