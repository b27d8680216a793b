"""Contracts of library functions used by the verified code (assumed, not verified): Python builtins, itertools,
functools, operator, numpy. Each is given by its effect on comprehension normal forms."""
import ast
import builtins
import collections
import functools
import itertools
import operator
import types
import z3
import numpy
from gem.utils import cached_property as gem_cached_property

from .values import *
from .values import zconsts
from .engine import Choice, deref, wrapz, num_kind, zi, zr, zb, as_seq, Infeasible, linear_coeff

MODELS = {}
METHODS = {}


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f
    return deco


def method(*keys):
    def deco(f):
        for k in keys:
            METHODS[k] = f
        return f
    return deco


def dict_from_pairs(it, s):
    """dict of a sequence of pairs; later duplicates win; keys of symbolic families must be distinct"""
    eng = it.eng
    s = eng.norm(s)
    if s.concrete:
        d = eng.new_dict()
        for kv in s.items():
            k, v = as_seq(kv).items()
            it.dict_set(d, k, v)
        return d
    return eng.new_dict(pairs(eng, s))


def pairs(eng, s):
    out = []
    for p in s.pieces:
        if isinstance(p, Elem):
            kv = as_seq(p.v)
            if not kv.concrete or len(kv.pieces) != 2:
                raise Unsupported("dict from non-pairs")
            out.append(Elem(tuple(kv.items())))
        elif isinstance(p, Flat):
            out.append(Flat(p.var, p.dom, pairs(eng, p.body)))
        elif isinstance(p, Alt):
            out.append(Alt([(g, pairs(eng, x)) for g, x in p.cases]))
        else:
            raise Unsupported("dict from opaque sequence")
    return Seq(out)


from .interp import Interp       # noqa: E402
Interp.dict_from_pairs = lambda self, s: dict_from_pairs(self, s)


# ------------------------------------------------------------------ builtins

@model(len)
def m_len(it, a, kw):
    v = it.eng.force(deref(a[0]))
    s = as_seq(v)
    if s is None and isinstance(v, PDict):
        s = v.items
        it.log_access(v, "r")
    if s is None and isinstance(v, PObj):
        return it.call(it.getattr(v, "__len__"), [])
    if s is None and isinstance(v, Obj):
        h = getattr(v.schema, "length", None)
        if h:
            return h(it, v)
        raise Unsupported(f"len of {v!r}")
    if s is None and isinstance(v, Substitutable) and hasattr(v, "sym_len"):
        return v.sym_len(it)
    if s is None:
        if isinstance(v, (App, SU)):
            return int_app(it, "len", v)
        return len(v)
    if isinstance(v, PList):
        it.log_access(v, "r")
    if isinstance(s, Seq) and s.kind == "symset":
        return set_len(it, s)
    l = z3.simplify(it.eng.seq_len(s))
    return l.as_long() if z3.is_int_value(l) else SInt(l)


def set_single(it, s):
    """formula: the set given by the (possibly repeating) sequence s has exactly one element; and that element"""
    eng = it.eng
    n = eng.seq_len(s)
    if not eng.branch(n >= 1):
        return z3.BoolVal(False), None
    first = it.seq_get(s.as_kind("tuple"), 0)
    def same(x):
        return SBool(it.formula(lambda: it.eq(x, first)))
    return quant(it, it.map_seq(same, s.as_kind("iter")), True), first


def set_len(it, s):
    eng = it.eng
    g, first = set_single(it, s)
    if first is None:
        return 0
    if eng.branch(g):
        return 1
    m = fresh_int("card")
    eng.pc.append(z3.And(m >= 2, m <= eng.seq_len(s)))
    return SInt(m)


def no_set(s, what):
    """an operation whose result depends on the multiplicity or order of the elements"""
    if isinstance(s, Seq) and s.kind == "symset":
        raise Unsupported(f"{what} of a symbolic set")
    return s


_appint = {}


def int_app(it, nm, v):
    """an integer attribute of an opaque application"""
    r = repr(v)
    key = (nm, r)
    if key not in _appint:
        _appint[key] = z3.Int(f"{nm}<{r}>")
    c = _appint[key]
    if nm == "len":
        it.eng.fact(c >= 0)
    return SInt(c)


@model(range)
def m_range(it, a, kw):
    a = [deref(x) for x in a]
    if all(isinstance(x, (int, numpy.integer)) for x in a):
        return range(*map(int, a))
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
    lo, hi = zi(lo), zi(hi)
    v = fresh_int()
    if isinstance(st, int) and st == 1:
        n = z3.simplify(hi - lo)
        return Seq([Flat(v, Dom(n=n), Seq([Elem(SInt(z3.simplify(lo + v)))]))], "range")
    st = zi(st)
    if it.eng.entails(st > 0):
        # number of elements: ceil((hi-lo)/st)
        n = z3.If(hi > lo, (hi - lo + st - 1) / st, 0)
        k = it.eng.entails(z3.And(hi >= lo, (hi - lo) % st == 0))
        q = exact_quotient(it.eng, hi - lo, st)
        if q is not None:
            n = q
        return Seq([Flat(v, Dom(n=n), Seq([Elem(SInt(z3.simplify(lo + v * st)))]))], "range")
    if it.eng.entails(st < 0):
        if z3.is_int_value(z3.simplify(st)) and z3.simplify(st).as_long() == -1:
            n = z3.simplify(lo - hi)
            return Seq([Flat(v, Dom(n=n), Seq([Elem(SInt(z3.simplify(lo - v)))]))], "range")
    raise Unsupported("range with symbolic step")


def exact_quotient(eng, d, st):
    d = z3.simplify(d, som=True)
    terms = d.children() if z3.is_add(d) else [d]
    out = z3.IntVal(0)
    for t in terms:
        if t.eq(st):
            out = out + 1
        elif z3.is_mul(t) and any(c.eq(st) for c in t.children()):
            cs = list(t.children())
            for i, c in enumerate(cs):
                if c.eq(st):
                    del cs[i]
                    break
            r = z3.IntVal(1)
            for c in cs:
                r = r * c
            out = out + r
        else:
            return None
    return z3.simplify(out)


@model(tuple)
def m_tuple(it, a, kw):
    if a:
        no_set(deref(a[0]), "tuple")
    if not a:
        return ()
    s = it.eng.norm(it.iter_seq(a[0]))
    return tuple(s.items()) if s.concrete else s.as_kind("tuple")


@model(list)
def m_list(it, a, kw):
    if a:
        no_set(deref(a[0]), "list")
    return it.eng.new_list(it.iter_seq(a[0]).as_kind("list") if a else Seq((), "list"))


@model(iter, itertools.tee)
def m_iter(it, a, kw):
    return it.iter_seq(a[0]).as_kind("iter")


@model(dict)
def m_dict(it, a, kw):
    eng = it.eng
    d = None
    if a:
        v = eng.force(deref(a[0]))
        if isinstance(v, (PDict, dict)):
            d = eng.new_dict(eng.dict_items(v))
        else:
            d = dict_from_pairs(it, it.iter_seq(v))
    else:
        d = eng.new_dict()
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


@model(set, frozenset)
def m_set(it, a, kw):
    if not a:
        return Seq((), "set")
    return dedup(it, it.iter_seq(a[0]))


def dedup(it, s):
    eng = it.eng
    s = eng.norm(s)
    if s.concrete:
        out = []
        for x in s.items():
            if isinstance(x, PObj):
                # hash-based identity of the interpreted class
                pass
            dup = False
            for y in out:
                e = it.eq(x, y)
                if e is True or (e is not False and it.truth(e)):
                    dup = True
                    break
            if not dup:
                out.append(x)
        return seq_of(out, "set")
    # constant family: {c for i<n} = {c} if n>=1
    if len(s.pieces) == 1 and isinstance(s.pieces[0], Flat):
        p = s.pieces[0]
        if len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
            v = p.body.pieces[0].v
            w, w2 = p.dom.fresh(), p.dom.fresh()
            cs = [p.dom.constraint(w), p.dom.constraint(w2)]
            same = it.formula(lambda: it.eq(subst(v, [(p.var, w)]), subst(v, [(p.var, w2)])), cs)
            if eng.with_pc(cs, lambda: eng.entails(same)):
                if eng.branch(p.dom.size() >= 1):
                    rep = it.piece_get(p, z3.IntVal(0))
                    return seq_of([rep], "set")
                return Seq((), "set")
    return Seq(s.pieces, "symset")


@model(enumerate)
def m_enumerate(it, a, kw):
    return it.enumerate_seq(it.iter_seq(a[0]), a[1] if len(a) > 1 else kw.get("start", 0))


@model(zip)
def m_zip(it, a, kw):
    if any(isinstance(x, Star) for x in a):
        if len(a) != 1:
            raise Unsupported("zip(*symbolic, ...)")
        s = it.eng.norm(a[0].seq)
        # transpose a family of fixed-arity tuples
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Flat):
            p = s.pieces[0]
            if len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                e = as_seq(p.body.pieces[0].v)
                if e is not None and e.concrete:
                    if not it.eng.branch(p.dom.size() >= 1):
                        return Seq()
                    return Seq([Elem(Seq([Flat(p.var, p.dom, Seq([Elem(x)]))], "tuple")) for x in e.items()])
        raise Unsupported("zip(*symbolic)")
    if not a:
        return Seq()
    return it.zip_seqs([it.iter_seq(x) for x in a])


@model(map)
def m_map(it, a, kw):
    f = a[0]
    if len(a) == 2:
        return it.map_seq(lambda x: it.call(f, [x]), it.iter_seq(a[1]))
    z = it.zip_seqs([it.iter_seq(x) for x in a[1:]])
    return it.map_seq(lambda t: it.call(f, list(t)), z)


@model(filter)
def m_filter(it, a, kw):
    f = a[0]
    def one(x):
        r = x if f is None else it.call(f, [x])
        return Seq([Elem(x)]) if it.truth(r) else Seq()
    return it.flat_map(one, it.iter_seq(a[1]))


@model(reversed)
def m_reversed(it, a, kw):
    return it.rev_seq(it.eng.norm(it.iter_seq(a[0])))


@model(itertools.chain)
def m_chain(it, a, kw):
    out = []
    for x in a:
        if isinstance(x, Star):
            out.extend(it.flat_map(lambda y: it.iter_seq(y), x.seq).pieces)
        else:
            out.extend(it.iter_seq(x).pieces)
    return Seq(out)


@model(itertools.chain.from_iterable)
def m_chain_from(it, a, kw):
    return it.flat_map(lambda y: it.iter_seq(y), it.iter_seq(a[0]))


@model(itertools.product)
def m_product(it, a, kw):
    rep = kw.get("repeat", 1)
    if any(isinstance(x, Star) for x in a) or not isinstance(rep, int):
        raise Unsupported("product of a symbolic number of iterables")
    seqs = [it.iter_seq(x) for x in a] * rep
    def go(i, acc):
        if i == len(seqs):
            return Seq([Elem(tuple(acc))])
        return it.flat_map(lambda x: go(i + 1, acc + [x]), seqs[i], pure=True)
    return go(0, [])


@model(itertools.repeat)
def m_repeat(it, a, kw):
    if len(a) == 2:
        return Seq([Flat(fresh_int(), Dom(n=zi(a[1])), Seq([Elem(a[0])]))])
    raise Unsupported("infinite repeat")


@model(itertools.islice)
def m_islice(it, a, kw):
    from .interp import SliceVal
    lo, hi, st = (None, a[1], None) if len(a) == 2 else (a[1], a[2], a[3] if len(a) > 3 else None)
    return it.seq_slice(it.iter_seq(a[0]), SliceVal(lo, hi, st), None)


@model(itertools.accumulate)
def m_accumulate(it, a, kw):
    if len(a) > 1 and a[1] is not operator.add:
        raise Unsupported("accumulate with function")
    s = it.iter_seq(a[0])
    if "initial" in kw and kw["initial"] is not None:
        s = Seq([Elem(kw["initial"])] + list(s.pieces))
    return cumsum(it, s).as_kind("iter")


@model(functools.partial)
def m_partial(it, a, kw):
    return Partial(a[0], a[1:], kw)


@model(functools.reduce)
def m_reduce(it, a, kw):
    f, s = a[0], it.eng.norm(it.iter_seq(a[1]))
    if s.concrete:
        vals = s.items()
        if len(a) > 2:
            vals = [a[2]] + vals
        if not vals:
            raise PyRaise(TypeError, ("reduce() of empty sequence",))
        r = vals[0]
        for x in vals[1:]:
            r = it.call(f, [r, x])
        return r
    init = a[2] if len(a) > 2 else None
    h = REDUCERS.get(key_of(f))
    if h is not None:
        return h(it, s, init, len(a) > 2)
    raise Unsupported(f"reduce with {f!r} over a symbolic sequence")


def key_of(f):
    try:
        hash(f)
        return f
    except TypeError:
        return None


REDUCERS = {}


@model(sum)
def m_sum(it, a, kw):
    no_set(deref(a[0]), "sum")
    s = it.eng.norm(it.iter_seq(a[0]))
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    return seq_sum(it, s, start)


def seq_sum(it, s, start=0):
    if s.concrete:
        r = start
        for x in s.items():
            r = it.binop("+", r, x)
        return r
    if as_seq(start) is not None:       # sum of tuples: concatenation
        return it.binop("+", start, m_tuple(it, [m_chain_from(it, [s], {})], {}))
    t = sum_pieces(it, s)
    return it.binop("+", start, SInt(z3.simplify(t)))


def sum_pieces(it, s, kind="SUM"):
    eng = it.eng
    r = z3.IntVal(0 if kind == "SUM" else 1)
    for p in s.pieces:
        if isinstance(p, Elem):
            v = it.eng.force(deref(p.v))
            t = zi(v)
        elif isinstance(p, Flat):
            eng.pc.append(p.dom.constraint(p.var))
            try:
                b = sum_pieces(it, p.body, kind)
            finally:
                eng.pc.pop()
            t = eng.sum_over(p.var, p.dom, b, kind)
        elif isinstance(p, Alt):
            t = sum_pieces(it, p.cases[-1][1], kind)
            for g, x in reversed(p.cases[:-1]):
                t = z3.If(g, sum_pieces(it, x, kind), t)
        else:
            raise Unsupported(f"sum of {p}")
        r = r + t if kind == "SUM" else r * t
    return z3.simplify(r)


def quant(it, s, forall):
    """(all / any) as a formula"""
    eng = it.eng
    cs = []
    for p in s.pieces:
        if isinstance(p, Elem):
            v = eng.force(deref(p.v))
            cs.append(v.e if isinstance(v, SBool) else z3.BoolVal(it.truth(v)))
        elif isinstance(p, Flat):
            b = quant(it, p.body, forall)
            u = p.dom.fresh()
            b = z3.substitute(b, (p.var, u))
            c = p.dom.constraint(u)
            if u.get_id() not in zconsts(b) and forall and z3.is_true(z3.simplify(b)):
                continue
            if p.dom.keys is None and u.get_id() not in zconsts(b):
                cs.append(z3.Or(p.dom.n <= 0, b) if forall else z3.And(p.dom.n > 0, b))
                continue
            cs.append(z3.ForAll([u], z3.Implies(c, b)) if forall else z3.Exists([u], z3.And(c, b)))
        elif isinstance(p, Alt):
            for g, x in p.cases:
                b = quant(it, x, forall)
                cs.append(z3.Implies(g, b) if forall else z3.And(g, b))
        else:
            raise Unsupported("all/any")
    if forall:
        return z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
    return z3.simplify(z3.Or(*cs)) if cs else z3.BoolVal(False)


@model(all)
def m_all(it, a, kw):
    q = quant(it, it.eng.norm(it.iter_seq(a[0])), True)
    return True if z3.is_true(q) else False if z3.is_false(q) else SBool(q)


@model(any)
def m_any(it, a, kw):
    q = quant(it, it.eng.norm(it.iter_seq(a[0])), False)
    return True if z3.is_true(q) else False if z3.is_false(q) else SBool(q)


def minmax(it, a, kw, mx):
    if any(isinstance(x, Star) for x in a):
        out = []
        for x in a:
            out += list(x.seq.pieces) if isinstance(x, Star) else [Elem(x)]
        s = it.eng.norm(Seq(out))
        l = it.eng.seq_len(s)
        if not it.eng.entails(l >= 2) and it.eng.branch(l == 1):
            return minmax(it, [it.seq_get(s, 0)], kw, mx)
    elif len(a) == 1:
        s = it.eng.norm(it.iter_seq(a[0]))
        if s.kind == "symset":
            g, first = set_single(it, s)
            if first is not None and it.eng.branch(g):
                return first
    else:
        s = seq_of(a)
    if "key" in kw and kw["key"] is not None:
        f = kw["key"]
    else:
        f = None
    if s.concrete:
        vals = s.items()
        if not vals:
            if "default" in kw:
                return kw["default"]
            raise PyRaise(ValueError, ("empty",))
        r = vals[0]
        for x in vals[1:]:
            fx, fr = (it.call(f, [x]), it.call(f, [r])) if f else (x, r)
            if num_kind(fx) == "int" and num_kind(fr) == "int" and not f and (isinstance(fx, SInt) or isinstance(fr, SInt)):
                p, q = zi(fx), zi(fr)
                r = SInt(z3.If(p > q, p, q) if mx else z3.If(p < q, p, q))
                continue
            c = it.compare(ast.Gt() if mx else ast.Lt(), fx, fr)
            if it.truth(c):
                r = x
        return r
    if f is not None:
        raise Unsupported("max with key over symbolic sequence")
    return extremum(it, s, mx, kw)


def extremum(it, s, mx, kw):
    """max/min of a symbolic-length integer sequence: an uninterpreted term with its defining property"""
    eng = it.eng
    l = eng.seq_len(s)
    if not eng.entails(l >= 1) and not eng.branch(l >= 1):
        if "default" in kw:
            return kw["default"]
        raise PyRaise(ValueError, ("empty",))
    if all(isinstance(p, Elem) or isinstance(p, Flat) and p.dom.keys is None and all(isinstance(q, Elem) for q in p.body.pieces) for p in s.pieces):
        vals = [q.v for p in s.pieces for q in ([p] if isinstance(p, Elem) else p.body.pieces)]
        if all(type(v) is int for v in vals) and (len(set(vals)) == 1):
            return vals[0]
    key = ("EXT", mx, repr(canon(s)))
    if key not in eng._ucache:
        m = fresh_int("max" if mx else "min")
        eng._ucache_ext = getattr(eng, "_ucache_ext", {})
        eng._ucache_ext[key] = m
    m = eng._ucache_ext.setdefault(key, None) if hasattr(eng, "_ucache_ext") else None
    if m is None:
        m = fresh_int("max" if mx else "min")
        eng._ucache_ext[key] = m
    def ext(f):
        try:
            return it.map_seq(lambda x: SBool(f(zi(x))), s, pure=True)
        except TypeError:
            return it.map_seq(lambda x: SBool(f(zi(eng.force(x)))), s)
    up = quant(it, ext(lambda x: x <= m if mx else x >= m), True)
    at = quant(it, ext(lambda x: x == m), False)
    eng.pc.append(up)
    eng.pc.append(at)
    return SInt(m)


def canon(s, depth=0):
    """alpha-canonical copy of a sequence (for syntactic comparison)"""
    out = []
    for p in s.pieces:
        if isinstance(p, Flat):
            c = z3.Const(f"cb{depth}_{p.var.sort()}", p.var.sort())
            out.append(Flat(c, p.dom, canon(subst(p.body, [(p.var, c)]), depth + 1)))
        else:
            out.append(p)
    return Seq(out)


@model(max)
def m_max(it, a, kw):
    return minmax(it, a, kw, True)


@model(min)
def m_min(it, a, kw):
    return minmax(it, a, kw, False)


@model(abs)
def m_abs(it, a, kw):
    v = deref(a[0])
    if isinstance(v, SInt):
        return SInt(z3.If(v.e >= 0, v.e, -v.e))
    return abs(it.concretize(v))


@model(bool)
def m_bool(it, a, kw):
    v = it.eng.force(deref(a[0])) if a else False
    if isinstance(v, SBool):
        return v
    return it.truth(v)


@model(int)
def m_int(it, a, kw):
    v = it.eng.force(deref(a[0])) if a else 0
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(zi(v))
    if isinstance(v, SReal):
        return SInt(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
    if isinstance(v, (App, SU)):
        return int_app(it, "int", v)
    try:
        return int(it.concretize(v))
    except NotConcrete:
        raise Unsupported(f"int({v!r})")
    except (TypeError, ValueError) as e:
        raise PyRaise(type(e), e.args)


@model(str)
def m_str(it, a, kw):
    return it.mkstr([it.tostr(a[0])]) if a else ""


@model(repr)
def m_repr(it, a, kw):
    return it.mkstr([it.tostr(a[0], "r")])


@model(isinstance)
def m_isinstance(it, a, kw):
    return it.isinstance(a[0], a[1])


@model(issubclass)
def m_issubclass(it, a, kw):
    c = a[1] if not isinstance(a[1], Seq) else tuple(a[1].items())
    return issubclass(a[0], c)


@model(type)
def m_type(it, a, kw):
    t = it.type_of(a[0])
    if t is None:
        return App("type", (deref(a[0]),))
    return t


@model(getattr)
def m_getattr(it, a, kw):
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if e.exc is AttributeError and len(a) > 2:
            return a[2]
        raise


@model(hasattr)
def m_hasattr(it, a, kw):
    o = it.eng.force(deref(a[0]))
    if isinstance(o, Obj):
        if a[1] in o.schema.attrs:
            return True
        if any(hasattr(c, a[1]) for c in o.schema.cls):
            return True
        h = getattr(o.schema, "hasattr", None)
        if h:
            return h(it, o, a[1])
        raise Unsupported(f"hasattr({o!r}, {a[1]})")
    try:
        it.getattr(o, a[1])
        return True
    except PyRaise as e:
        if e.exc is AttributeError:
            return False
        raise


@model(setattr)
def m_setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2])


@model(callable)
def m_callable(it, a, kw):
    return isinstance(a[0], (Func, Model, Bound, Partial)) or callable(a[0])


@model(id)
def m_id(it, a, kw):
    return App("id", (deref(a[0]),))


@model(hash)
def m_hash(it, a, kw):
    v = it.eng.force(deref(a[0]))
    if isinstance(v, PObj) and isinstance(v.cls.__hash__, types.FunctionType):
        return it.call(v.cls.__hash__, [v])
    try:
        return hash(it.concretize(v))
    except NotConcrete:
        return App("hash", (v,))


@model(next)
def m_next(it, a, kw):
    s = it.eng.norm(it.iter_seq(a[0]))
    l = it.eng.seq_len(s)
    if it.eng.branch(l >= 1):
        return it.seq_get(s, 0)
    if len(a) > 1:
        return a[1]
    raise PyRaise(StopIteration)


@model(slice)
def m_slice(it, a, kw):
    from .interp import SliceVal
    a = [deref(x) for x in a]
    if len(a) == 1:
        return SliceVal(None, a[0], None)
    return SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)


@model(sorted)
def m_sorted(it, a, kw):
    eng = it.eng
    s = eng.norm(it.iter_seq(a[0]))
    if kw.get("reverse"):
        raise Unsupported("sorted(reverse)")
    keyf = kw.get("key")
    if s.concrete:
        try:
            vals = [it.concretize(x) for x in s.items()]
            if keyf is None:
                return eng.new_list(seq_of(sorted(vals), "list"))
        except NotConcrete:
            pass
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
        # insertion sort with case splits
        out = []
        for x in s.items():
            kx = it.call(keyf, [x]) if keyf is not None else x
            i = len(out)
            while i > 0 and it.truth(it.compare(ast.Lt(), kx, out[i - 1][0])):
                i -= 1
            out.insert(i, (kx, x))
        return eng.new_list(seq_of([x for _, x in out], "list"))
    ks = s if keyf is None else it.map_seq(lambda x: it.call(keyf, [x]), s)
    if strictly_increasing(it, ks):
        return eng.new_list(s.as_kind("list"))
    if s.kind == "symset":
        pass
    return eng.new_list(Seq([Rho("sorted:" + repr(canon(s)), (), eng.seq_len(s))], "list")) if False else _sorted_app(it, s, ks)


def _sorted_app(it, s, ks):
    raise Unsupported(f"sorted of a sequence not provably sorted: {s}")


def strictly_increasing(it, ks):
    """prove that consecutive elements of the sequence are strictly increasing (lexicographic for tuples)"""
    eng = it.eng
    # collect generic elements: list of (vars, constraint, value)
    def gen(s, vs, cs):
        out = []
        for p in s.pieces:
            if isinstance(p, Elem):
                out.append((list(vs), list(cs), p.v))
            elif isinstance(p, Flat):
                if p.dom.keys is not None:
                    return None
                v = p.dom.fresh()
                g = gen(subst(p.body, [(p.var, v)]), vs + [(v, p.dom)], cs + [p.dom.constraint(v)])
                if g is None:
                    return None
                out += g
            else:
                return None
        return out
    if len(ks.pieces) != 1:
        return False
    a, b = gen(ks, [], []), gen(ks, [], [])
    if a is None or len(a) != 1:
        return False
    (va, ca, xa), (vb, cb, xb) = a[0], b[0]
    # lexicographic order of the index vectors
    lexlt = z3.BoolVal(False)
    for (x, dx), (y, dy) in reversed(list(zip(va, vb))):
        lexlt = z3.Or(x < y, z3.And(x == y, lexlt))
    try:
        lt = less(it, xa, xb)
    except Unsupported:
        return False
    return eng.with_pc(ca + cb + [lexlt], lambda: eng.entails(lt))


def less(it, x, y):
    """formula x < y without case splits; tuples compare by the first components that differ"""
    x, y = deref(x), deref(y)
    if num_kind(x) == "int" and num_kind(y) == "int":
        return zi(x) < zi(y)
    sx, sy = as_seq(x), as_seq(y)
    if sx is not None and sy is not None and sx.concrete and sy.concrete and len(sx.pieces) == len(sy.pieces):
        r = z3.BoolVal(False)
        first = True
        for p, q in reversed(list(zip(sx.items(), sy.items()))):
            try:
                l, e = less(it, p, q), it.eq(p, q)
            except Unsupported:
                # undetermined component: only reached when earlier components are equal
                l, e = z3.BoolVal(False), z3.BoolVal(False)
            r = z3.Or(l, z3.And(zb(e), r))
        return r
    raise Unsupported("order")


# ------------------------------------------------------------------ operator
for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("mod", "%"), ("truediv", "/"), ("pow", "**"),
                ("or_", "|"), ("and_", "&"), ("iadd", "+"), ("concat", "+")):
    MODELS[getattr(operator, _n)] = (lambda op: lambda it, a, kw: it.binop(op, a[0], a[1]))(_op)
MODELS[operator.neg] = lambda it, a, kw: it.unop(ast.USub(), a[0])
for _n, _c in (("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq)):
    MODELS[getattr(operator, _n)] = (lambda c: lambda it, a, kw: it.compare(c(), a[0], a[1]))(_c)
MODELS[operator.getitem] = lambda it, a, kw: it.getitem(a[0], a[1])
MODELS[operator.contains] = lambda it, a, kw: it.contains(a[0], a[1])
MODELS[operator.not_] = lambda it, a, kw: it.unop(ast.Not(), a[0])


@model(operator.methodcaller)
def m_methodcaller(it, a, kw):
    nm, rest = a[0], list(a[1:])
    return Model(lambda it2, b, k: it2.call(it2.getattr(b[0], nm), rest, dict(kw)), f"methodcaller({nm})")


@model(operator.attrgetter)
def m_attrgetter(it, a, kw):
    def f(it2, b, k):
        v = b[0]
        for q in a[0].split("."):
            v = it2.getattr(v, q)
        return v
    return Model(f, f"attrgetter({a[0]})")


@model(operator.itemgetter)
def m_itemgetter(it, a, kw):
    def f(it2, b, k):
        if len(a) == 1:
            return it2.getitem(b[0], a[0])
        return tuple(it2.getitem(b[0], i) for i in a)
    return Model(f, "itemgetter")


@model(functools.wraps)
def m_wraps(it, a, kw):
    return Model(lambda it2, b, k: b[0], "wraps")


# ------------------------------------------------------------------ list / dict / seq methods

@method(("list", "append"))
def l_append(it, a, kw):
    l, v = a
    if isinstance(v, LRef):
        v = it.eng.freeze(deref(v))
    l.set(l.seq + Seq([Elem(v)]))


@method(("list", "extend"))
def l_extend(it, a, kw):
    l, v = a
    l.set(l.seq + it.iter_seq(v))


@method(("list", "pop"))
def l_pop(it, a, kw):
    l = a[0]
    s = it.eng.norm(l.seq)
    it.log_access(l, "r")
    if len(a) > 1 and a[1] != -1:
        if s.concrete and isinstance(a[1], int):
            vals = s.items()
            v = vals.pop(a[1])
            l.set(seq_of(vals, "list"))
            return v
        if a[1] == 0:
            from .interp import SliceVal
            v = it.seq_get(s, 0)
            l.set(as_seq(it.seq_slice(s, SliceVal(1, None, None), None)).as_kind("list"))
            return v
        raise Unsupported("pop(i)")
    if not s.pieces:
        raise PyRaise(IndexError)
    p = s.pieces[-1]
    if isinstance(p, Elem):
        l.set(Seq(s.pieces[:-1], "list"))
        return p.v
    if isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
        if not it.eng.branch(p.dom.n >= 1):
            l.set(Seq(s.pieces[:-1], "list"))
            return l_pop(it, a, kw)
        v = subst(p.body.pieces[0].v, [(p.var, z3.simplify(p.dom.n - 1))])
        l.set(Seq(s.pieces[:-1] + (Flat(p.var, Dom(n=z3.simplify(p.dom.n - 1)), p.body),), "list"))
        return v
    raise Unsupported("pop from symbolic list")


@method(("list", "insert"))
def l_insert(it, a, kw):
    l, i, v = a
    s = it.eng.norm(l.seq)
    if i == 0:
        l.set(Seq((Elem(v),) + s.pieces, "list"))
    elif s.concrete and isinstance(i, int):
        vals = s.items()
        vals.insert(i, v)
        l.set(seq_of(vals, "list"))
    else:
        raise Unsupported("insert")


@method(("list", "copy"))
def l_copy(it, a, kw):
    return it.eng.new_list(a[0].seq)


@method(("list", "index"), ("tuple", "index"), ("seq", "index"))
def l_index(it, a, kw):
    s = it.eng.norm(it.iter_seq(a[0]))
    if s.concrete:
        for i, x in enumerate(s.items()):
            e = it.eq(x, a[1])
            if e is True or (e is not False and it.truth(e)):
                return i
        raise PyRaise(ValueError)
    raise Unsupported("index")


@method(("list", "count"), ("tuple", "count"), ("seq", "count"))
def l_count(it, a, kw):
    s = it.eng.norm(it.iter_seq(a[0]))
    r = 0
    if s.concrete:
        for x in s.items():
            e = it.eq(x, a[1])
            if e is True or (e is not False and it.truth(e)):
                r += 1
        return r
    raise Unsupported("count")


@method(("list", "sort"))
def l_sort(it, a, kw):
    r = m_sorted(it, a, kw)
    a[0].set(r.seq)


@method(("list", "reverse"))
def l_reverse(it, a, kw):
    a[0].set(it.rev_seq(it.eng.norm(a[0].seq)))


@method(("dict", "items"))
def d_items(it, a, kw):
    d = a[0]
    it.log_access(d, "r")
    return Seq(it.eng.dict_items(d).pieces)


@method(("dict", "keys"))
def d_keys(it, a, kw):
    it.log_access(a[0], "r")
    return it.map_seq(lambda kv: kv[0], it.eng.dict_items(a[0]), pure=True)


@method(("dict", "values"))
def d_values(it, a, kw):
    it.log_access(a[0], "r")
    return it.map_seq(lambda kv: kv[1], it.eng.dict_items(a[0]), pure=True)


@method(("dict", "get"))
def d_get(it, a, kw):
    d = a[0]
    dflt = a[2] if len(a) > 2 else kw.get("default")
    if isinstance(d, dict):
        try:
            return it.lift(d.get(it.concretize(a[1]), dflt))
        except NotConcrete:
            for k, v in d.items():
                if it.truth(it.eq(k, a[1])):
                    return v
            return dflt
    return it.dict_get(d, a[1], dflt)


@method(("dict", "setdefault"))
def d_setdefault(it, a, kw):
    d, k = a[0], a[1]
    v = a[2] if len(a) > 2 else None
    from .interp import MISSING
    r = it.dict_get(d, k, MISSING) if False else None
    c = it.contains(d, k)
    if it.truth(c):
        return it.dict_get(d, k)
    it.dict_set(d, k, v)
    return it.dict_get(d, k)


@method(("dict", "update"))
def d_update(it, a, kw):
    d = a[0]
    for o in a[1:]:
        o = it.eng.force(deref(o))
        items = it.eng.dict_items(o) if isinstance(o, (PDict, dict)) else it.iter_seq(o)
        items = it.eng.norm(pairs(it.eng, items) if not isinstance(o, dict) else items)
        if items.concrete:
            for k, v in items.items():
                it.dict_set(d, k, v)
        elif not d.items.pieces:
            d.set(items)
        else:
            raise Unsupported("update with symbolic dict")
    for k, v in kw.items():
        it.dict_set(d, k, v)


@method(("dict", "pop"))
def d_pop(it, a, kw):
    d = a[0]
    if isinstance(d, dict):
        raise Unsupported("mutation of native dict")
    items = it.eng.norm(d.items)
    if items.concrete:
        out, hit, val = [], False, None
        for p in items.pieces:
            e = it.eng.key_eq(p.v[0], a[1])
            if not hit and (e is True or (e is not False and it.eng.branch(e))):
                hit, val = True, p.v[1]
            else:
                out.append(p)
        d.set(Seq(out))
        if hit:
            return val
        if len(a) > 2:
            return a[2]
        raise PyRaise(KeyError, (a[1],))
    raise Unsupported("dict.pop")


@method(("dict", "copy"))
def d_copy(it, a, kw):
    return it.eng.new_dict(it.eng.dict_items(a[0]))


@method(("set", "union"), ("symset", "union"))
def s_union(it, a, kw):
    out = []
    for x in a:
        if isinstance(x, Star):
            out += m_chain(it, [x], {}).pieces
        else:
            out += it.iter_seq(x).pieces
    return dedup(it, Seq(out))


@method(("set", "pop"))
def s_pop(it, a, kw):
    raise Unsupported("set.pop")


@model(("setop", "-"))
def set_minus(it, a, kw):
    x, y = it.iter_seq(a[0]), a[1]
    def one(v):
        return Seq() if it.truth(it.contains(y, v)) else Seq([Elem(v)])
    return it.flat_map(one, x).as_kind("set")


@method(("str", "join"))
def str_join(it, a, kw):
    s = it.eng.norm(it.iter_seq(a[1]))
    if not s.concrete:
        return SStr([App("join", (a[0], s))])
    parts = []
    for i, x in enumerate(s.items()):
        if i:
            parts.append(a[0])
        parts.append(x)
    return it.mkstr(parts)


@method(("str", "encode"))
def str_encode(it, a, kw):
    try:
        return it.lift(it.concretize(a[0]).encode(*[it.concretize(x) for x in a[1:]], **{k: it.concretize(v) for k, v in kw.items()}))
    except NotConcrete:
        return App("encoded", (a[0],))


@method(("str", "format"))
def str_format(it, a, kw):
    f = a[0]
    if isinstance(f, SStr):
        raise Unsupported("format of symbolic string")
    import string
    out, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if spec:
            raise Unsupported("format spec")
        if field == "":
            v = a[1 + n]
            n += 1
        elif field.isdigit():
            v = a[1 + int(field)]
        else:
            v = kw[field]
        out.append(it.tostr(v, "r" if conv == "r" else "s"))
    return it.mkstr(out)


for _m in ("startswith", "endswith", "lower", "upper", "split", "replace", "strip", "rstrip", "lstrip"):
    def _f(it, a, kw, _m=_m):
        try:
            return getattr(it.concretize(a[0]), _m)(*[it.concretize(x) for x in a[1:]])
        except NotConcrete:
            raise Unsupported(f"str.{_m} of a symbolic string")
    METHODS[("str", _m)] = _f


# ------------------------------------------------------------------ numpy

def cumsum(it, s):
    eng = it.eng
    s = eng.norm(s)
    if s.concrete:
        out, r = [], 0
        for x in s.items():
            r = it.binop("+", r, x)
            out.append(r)
        return seq_of(out, "array")
    ps = list(s.pieces)
    # [a] ++ Flat(k<n, [f]) ++ ... : prefix sums as one family when the head is a single element
    if len(ps) == 2 and isinstance(ps[0], Elem) and isinstance(ps[1], Flat) and ps[1].dom.keys is None \
            and len(ps[1].body.pieces) == 1 and isinstance(ps[1].body.pieces[0], Elem):
        p = ps[1]
        k, u = fresh_int(), fresh_int()
        body = z3.substitute(zi(it.eng.force(deref(p.body.pieces[0].v))), (p.var, u))
        t = zi(ps[0].v) + eng.sum_over(u, Dom(n=k), body)
        return Seq([Flat(k, Dom(n=z3.simplify(p.dom.n + 1)), Seq([Elem(SInt(z3.simplify(t)))]))], "array")
    if len(ps) == 1 and isinstance(ps[0], Flat) and ps[0].dom.keys is None \
            and len(ps[0].body.pieces) == 1 and isinstance(ps[0].body.pieces[0], Elem):
        p = ps[0]
        k, u = fresh_int(), fresh_int()
        body = z3.substitute(zi(it.eng.force(deref(p.body.pieces[0].v))), (p.var, u))
        t = eng.sum_over(u, Dom(n=k + 1), body)
        return Seq([Flat(k, p.dom, Seq([Elem(SInt(z3.simplify(t)))]))], "array")
    raise Unsupported(f"cumsum of {s}")


@model(numpy.cumsum)
def np_cumsum(it, a, kw):
    return cumsum(it, it.iter_seq(a[0]))


@model(numpy.prod)
def np_prod(it, a, kw):
    v = it.eng.force(deref(a[0]))
    if num_kind(v):
        return v
    s = it.eng.norm(it.iter_seq(v))
    if s.concrete:
        r = 1
        for x in s.items():
            r = it.binop("*", r, x)
        return r
    return SInt(sum_pieces(it, s, "PROD"))


import math     # noqa: E402
MODELS[math.prod] = np_prod
try:
    import ufl.utils.sequences
    MODELS[ufl.utils.sequences.product] = np_prod
except ImportError:
    pass


@model(numpy.sum)
def np_sum(it, a, kw):
    if kw:
        return it.native_call(numpy.sum, a, kw)
    s = as_seq(deref(a[0]))
    if s is None:
        return it.native_call(numpy.sum, a, kw)
    return seq_sum(it, it.eng.norm(s))


@model(numpy.array, numpy.asarray)
def np_array(it, a, kw):
    v = it.eng.force(deref(a[0]))
    from .ndarray import NArr
    if isinstance(v, NArr):
        return v
    s = as_seq(v)
    if isinstance(v, (SInt, SReal)) and not kw:
        return v            # an array without axes behaves as its number
    if s is None:
        return it.native_call(numpy.array, a, kw)
    try:
        return numpy.array(it.concretize(v), **{k: it.concretize(x) for k, x in kw.items()})
    except NotConcrete:
        return s.as_kind("array")


def all_entries(it, arrs, rel):
    """formula: rel holds at every index of the arrays (scalars are broadcast); decided when entailed, else a fresh truth value"""
    from .ndarray import NArr
    sh = next(x.shape for x in arrs if isinstance(x, NArr))
    for x in arrs:
        if isinstance(x, NArr) and len(x.shape) != len(sh):
            raise Unsupported("broadcast comparison")
    fr = [fresh_int("x") for _ in sh]
    guard = [z3.And(x >= 0, x < n) for x, n in zip(fr, sh)]
    base = len(it.eng.pc)
    it.eng.pc.extend(guard)
    try:
        f = rel(*[zr(it.eng.force(deref(x.at(it, fr)))) if isinstance(x, NArr) else zr(x) for x in arrs])
        if it.eng.entails(f):
            return True
    finally:
        del it.eng.pc[base:]
    return SBool(z3.ForAll(fr, z3.Implies(z3.And(*guard), f)) if fr else f)


@model(numpy.allclose)
def np_allclose(it, a, kw):
    from .ndarray import NArr
    x, y = [it.eng.force(deref(v)) for v in a[:2]]
    if not isinstance(x, NArr) and not isinstance(y, NArr):
        return it.native_call(numpy.allclose, a, kw)
    x, y = [NArr.concrete(v) if isinstance(v, numpy.ndarray) else v for v in (x, y)]
    it.eng.assumptions.add("numpy.allclose decided as exact equality")
    return all_entries(it, [x, y], lambda p, q: p == q)


@model(numpy.isclose)
def np_isclose(it, a, kw):
    x, y = [it.eng.force(deref(v)) for v in a[:2]]
    if not (is_z(x) or is_z(y)):
        return it.native_call(numpy.isclose, a, kw)
    it.eng.assumptions.add("numpy.isclose decided as exact equality")
    return SBool(zr(x) == zr(y))


def full_model(npf, value):
    def m(it, a, kw):
        from .ndarray import NArr
        sh = it.eng.force(deref(a[0] if a else kw["shape"]))
        v = value if value is not None else it.eng.force(deref(a[1]))
        if num_kind(sh):
            dims = [sh]
        else:
            s = it.eng.norm(as_seq(sh))
            if not s.concrete:
                raise Unsupported(f"{npf.__name__} of abstract rank")
            dims = [it.eng.force(deref(x)) for x in s.items()]
        if all(isinstance(d, (int, numpy.integer)) for d in dims) and num_kind(v) and not is_z(v):
            return it.native_call(npf, a, kw)
        return NArr([zi(d) for d in dims], lambda it2, ix: v if not isinstance(v, (int, float)) else SReal(z3.RealVal(v)))
    return m


def is_z(v):
    return isinstance(v, SCALARS)


MODELS[numpy.zeros] = full_model(numpy.zeros, 0)
MODELS[numpy.ones] = full_model(numpy.ones, 1)
MODELS[numpy.full] = full_model(numpy.full, None)


@model(collections.defaultdict)
def m_defaultdict(it, a, kw):
    if len(a) > 1 or kw:
        raise Unsupported("defaultdict with contents")
    return it.eng.new_dict(Seq(), default=a[0] if a else None)


@method(("int", "tolist"))
@method(("int", "item"))
def int_tolist(it, a, kw):
    return a[0]


@method(("array", "tolist"))
def arr_tolist(it, a, kw):
    return it.eng.new_list(a[0].as_kind("list"))


@model(numpy.transpose)
def np_transpose(it, a, kw):
    v = deref(a[0])
    s = as_seq(v)
    if s is None or len(a) > 1 or kw:
        return it.native_call(numpy.transpose, a, kw)
    return Transposed(it.eng.norm(s))


class Transposed(Substitutable):
    """transpose of a list of equal-length tuples"""
    def __init__(self, rows): self.rows = rows
    def subst(self, f): return Transposed(f(self.rows))
    def parts(self): return [self.rows]
    def sym_iter(self, it):
        s = it.eng.norm(self.rows)
        w = width(s)
        if w is None:
            raise Unsupported("transpose")
        return Seq([Elem(it.map_seq(lambda t, i=i: as_seq(t).items()[i], s, pure=True)) for i in range(w)])


def width(s):
    for p in s.pieces:
        if isinstance(p, Elem):
            q = as_seq(p.v)
            return len(q.pieces) if q is not None and q.concrete else None
        if isinstance(p, Flat):
            return width(p.body)
    return None


@model(numpy.ravel_multi_index)
def np_ravel(it, a, kw):
    """C-order flattening of a multi-index (or of an array of multi-indices)"""
    idx, shape = a[0], as_seq(a[1])
    shape = it.eng.norm(shape)
    if not shape.concrete:
        raise Unsupported("ravel_multi_index with symbolic rank")
    dims = shape.items()
    idx = it.eng.force(deref(idx))
    def flat(t):
        r = 0
        for x, d in zip(t, dims):
            r = it.binop("+", it.binop("*", r, d), x)
        return r
    if isinstance(idx, Transposed):
        s = it.eng.norm(idx.rows)
        w = width(s)
        if w != len(dims):
            raise PyRaise(ValueError, ("parameter multi_index must be a sequence of length %d" % len(dims),))
        return it.map_seq(lambda t: flat(as_seq(t).items()), s, pure=True).as_kind("array")
    s = as_seq(idx)
    if s is not None and s.concrete and len(s.pieces) == len(dims):
        vals = [deref(x) for x in s.items()]
        if all(num_kind(x) == "int" for x in vals):
            if all(isinstance(x, (int, numpy.integer)) for x in vals + list(dims)):
                return it.native_call(numpy.ravel_multi_index, a, kw)
            for x, d in zip(vals, dims):
                it.eng.prove(z3.And(zi(x) >= 0, zi(x) < zi(d)), "ravel_multi_index: index within bounds")
            return flat(vals)
    try:
        return it.native_call(numpy.ravel_multi_index, a, kw)
    except NotConcrete:
        raise Unsupported("ravel_multi_index")


@model(numpy.unravel_index)
def np_unravel(it, a, kw):
    shape = it.eng.norm(as_seq(a[1]))
    i = it.eng.force(deref(a[0]))
    if not shape.concrete:
        raise Unsupported("unravel_index with symbolic rank")
    dims = shape.items()
    if isinstance(i, (int, numpy.integer)) and all(isinstance(d, (int, numpy.integer)) for d in dims):
        return it.native_call(numpy.unravel_index, a, kw)
    n = z3.IntVal(1)
    for d in dims:
        n = n * zi(d)
    it.eng.prove(z3.And(zi(i) >= 0, zi(i) < n), "unravel_index: index within bounds")
    from .gemmodel import unravel
    return tuple(unravel(it, zi(i), dims))


@model(numpy.ndindex)
def np_ndindex(it, a, kw):
    if len(a) == 1 and as_seq(a[0]) is not None:
        s = it.eng.norm(as_seq(a[0]))
    else:
        s = seq_of(a)
    if not s.concrete:
        # all multi-indices of an abstract shape in C order: position p -> component k
        n = SInt(sum_pieces(it, s, "PROD"))
        p = fresh_int()
        return Seq([Flat(p, Dom(n=n.e), Seq([Elem(NdIndex(s, SInt(p)))]))])
    dims = s.items()
    if all(isinstance(d, (int, numpy.integer)) for d in dims):
        return Seq([Elem(tuple(map(int, x))) for x in numpy.ndindex(*map(int, dims))])
    seqs = [m_range(it, [d], {}) for d in dims]
    return m_product(it, seqs, {})


class NdIndex(Substitutable):
    """the p-th multi-index (C order) of an abstract shape"""
    def __init__(self, shape, p): self.shape, self.p = shape, p
    def subst(self, f): return NdIndex(f(self.shape), f(self.p))
    def parts(self): return [self.shape, self.p]
    def pytype(self): return tuple
    def equal_to(self, eng, o, name):
        if not isinstance(o, NdIndex):
            return eng.fail(name, f"{self} vs {o!r}")
        return eng.seq_equal(self.shape, o.shape, name) and eng.equal(self.p, o.p, name)
    def __repr__(self): return f"NdIndex({self.shape}, {self.p})"


@model(numpy.arange)
def np_arange(it, a, kw):
    r = m_range(it, a, {})
    if isinstance(r, range):
        return numpy.arange(r.start, r.stop, r.step)
    return r.as_kind("array")
