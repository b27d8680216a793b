"""Library contract of GEM: every node denotes a tensor (a function of a multi-index) that may depend on free indices.

A node is a value G(kind, args, shape). `den(it, node, slots, env)` is its denotation as a z3 real term, where
`slots` are the terms at which the tensor is evaluated and `env` binds free indices to terms.  A slot is either one
integer axis ('i', term) or a whole axis family of symbolic rank ('u', term of sort U, length).  Constant folding
done by the real constructors does not change the denotation and is not modelled.  The constructors' own checks
(equal extents, indices within bounds, matching shapes) are obligations.
"""
import functools
import operator
import numpy
import z3
import gem
import gem.optimise
from .values import *
from .engine import Choice, deref, wrapz, num_kind, zi, zr, as_seq
from .models import model, REDUCERS, sum_pieces, NdIndex, METHODS, MODELS

R = z3.RealSort()
I = z3.IntSort()


class GIndex(Substitutable):
    """a gem.Index; its extent lives in eng.gem_extent[id] (set once, like the real class)"""
    def __init__(self, id, ps): self.id, self.ps = id, tuple(ps)
    def subst(self, f): return GIndex(self.id, [f(p) for p in self.ps])
    def parts(self): return list(self.ps)
    def pytype(self): return gem.Index
    def sym_getattr(self, it, name):
        if name == "extent":
            return extent_of(it, self)
        if name in ("count", "name"):
            return App("gem.Index." + name, (self.id, *[wrapz(p) for p in self.ps]))
        if name == "set_extent":
            return Model(lambda it2, a, k: set_extent(it2, self, a[0]), "set_extent")
        raise Unsupported(f"gem.Index.{name}")
    def sym_setattr(self, it, name, v):
        if name != "extent":
            raise Unsupported(f"gem.Index.{name} assignment")
        store_extent(it, self, v)
    def sym_eq(self, it, o):
        if not isinstance(o, GIndex) or o.id != self.id:
            return False
        return SBool(z3.And(*[a == b for a, b in zip(self.ps, o.ps)])) if self.ps else True
    def equal_to(self, eng, o, name):
        if not isinstance(o, GIndex) or o.id != self.id:
            return eng.fail(name, f"{self} is not {o!r}")
        return eng.prove(z3.And(*[a == b for a, b in zip(self.ps, o.ps)]) if self.ps else z3.BoolVal(True), name)
    def __repr__(self): return f"{self.id}({', '.join(map(str, self.ps))})"


def _ext(it):
    return it.eng.__dict__.setdefault("gem_extent", {})


def store_extent(it, i, v):
    _ext(it)[i.id] = (i.ps, v)


def extent_of(it, i):
    r = _ext(it).get(i.id)
    if r is None or r[1] is None:
        return None
    return subst(r[1], [(a, b) for a, b in zip(r[0], i.ps) if not a.eq(b)])


def set_extent(it, i, v):
    e = extent_of(it, i)
    if e is None:
        store_extent(it, i, v)
    else:
        it.eng.prove(zi(it.eng.force(e)) == zi(it.eng.force(v)), "GEM: index extent agrees with the dimension it indexes")


def new_index(it, extent=None):
    ps = list(getattr(it.eng, "binders", ()))
    i = GIndex(fresh_name("ix"), ps)
    store_extent(it, i, extent)
    return i


# ---------------------------------------------------------------------------------------------- multi-indices
class Slot:
    __slots__ = ("kind", "term", "n")
    def __init__(self, kind, term, n=None): self.kind, self.term, self.n = kind, term, n
    def __repr__(self): return f"{self.kind}:{self.term}"


def as_mi(it, mi):
    mi = it.eng.force(deref(mi))
    if isinstance(mi, NdIndex):
        return mi
    s = as_seq(mi)
    if s is None:
        return Seq([Elem(mi)], "tuple")
    return it.eng.norm(s)


def index_key(it, p):
    """('i', GIndex) or ('u', id, ps, n) of one piece of a sequence of indices"""
    if isinstance(p, Elem):
        return ("i", deref(p.v))
    if isinstance(p, Flat) and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem) and p.dom.keys is None:
        g = deref(p.body.pieces[0].v)
        if isinstance(g, GIndex):
            w = [j for j, x in enumerate(g.ps) if x.eq(p.var)]
            if len(w) == 1 and not any(p.var.get_id() in zconsts(x) for j, x in enumerate(g.ps) if j != w[0]):
                return ("u", g.id, tuple(x for j, x in enumerate(g.ps) if j != w[0]), p.dom.n)
    raise Unsupported(f"multi-index piece {p}")


def unravel_u(it, shape, p):
    """the p-th multi-index of an abstract shape, as one term"""
    s = shape_u(it, shape)
    return z3.Function("unravel_u", *[x.sort() for x in s], I, U)(*s, p)


def shape_u(it, shape):
    """terms that determine an abstract shape"""
    out = []
    for q in it.eng.norm(as_seq(shape)).pieces:
        if isinstance(q, Elem):
            out.append(zi(q.v))
        elif isinstance(q, Flat) and len(q.body.pieces) == 1 and isinstance(q.body.pieces[0], Elem) and q.dom.keys is None:
            t = z3.simplify(zi(q.body.pieces[0].v))
            consts = maximal_terms(t, q.var)
            txt = z3.substitute(t, *[(c, z3.Const(f"a{i}", c.sort())) for i, c in enumerate(consts)], (q.var, z3.Int("bv_Int"))).sexpr()
            out.append(z3.Function("shape_u<" + txt + ">", *[c.sort() for c in consts], I, U)(*consts, q.dom.n))
        else:
            raise Unsupported(f"shape {shape}")
    return out


def maximal_terms(t, var):
    """the maximal subterms not mentioning var (except literals), in order of occurrence"""
    out = []
    def walk(t):
        if var.get_id() not in zconsts(t):
            if not (z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t)) and not any(t.eq(x) for x in out):
                out.append(t)
            return
        for c in t.children():
            walk(c)
    walk(t)
    return out


def lookup(it, env, key):
    """term bound to an index (family)"""
    ident = key[1].id if key[0] == "i" else key[1]
    ps = key[1].ps if key[0] == "i" else key[2]
    for kind, i2, ps2, term in reversed(env):
        if i2 != ident:
            continue
        if kind != key[0] or len(ps) != len(ps2):
            raise Unsupported("an index family is used both as a whole and by component")
        if all(a.eq(b) for a, b in zip(ps, ps2)):
            return term
        eq = z3.And(*[a == b for a, b in zip(ps, ps2)])
        if it.eng.entails(eq):
            return term
        if not it.eng.entails(z3.Not(eq)):
            raise Unsupported("binding of an index family is undetermined")
    # free
    if key[0] == "i":
        return z3.Function(ident, *[p.sort() for p in ps], I)(*ps)
    return z3.Function(ident + "_mi", *[p.sort() for p in ps], U)(*ps)


def slots_of(it, mi, env):
    mi = as_mi(it, mi)
    if isinstance(mi, NdIndex):
        return [Slot("u", unravel_u(it, mi.shape, zi(mi.p)))]
    out = []
    for p in mi.pieces:
        if isinstance(p, Elem):
            v = it.eng.force(deref(p.v))
            if isinstance(v, GIndex):
                out.append(Slot("i", lookup(it, env, ("i", v))))
            elif num_kind(v) == "int":
                out.append(Slot("i", zi(v)))
            elif isinstance(v, VarIndex):
                out.append(Slot("i", z3.ToInt(den(it, v.expr, [], env))))
            elif isinstance(v, NdIndex):
                out.append(Slot("u", unravel_u(it, v.shape, zi(v.p))))
            else:
                raise Unsupported(f"index {v!r}")
        elif isinstance(p, Flat):
            k = index_key(it, p)
            out.append(Slot("u", lookup(it, env, k), k[3]))
        else:
            raise Unsupported(f"multi-index piece {p}")
    return out


class VarIndex(Substitutable):
    """gem.VariableIndex(expression)"""
    def __init__(self, expr): self.expr = expr
    def subst(self, f): return VarIndex(f(self.expr))
    def parts(self): return [self.expr]
    def pytype(self): return gem.VariableIndex


# ---------------------------------------------------------------------------------------------- nodes
KIND_CLASS = {"tensor": gem.Variable, "zero": gem.Zero, "identity": gem.Identity, "arr": gem.Literal, "sum": gem.Sum, "prod": gem.Product,
              "div": gem.Division, "pow": gem.Power, "indexed": gem.Indexed, "ct": gem.ComponentTensor, "isum": gem.IndexSum,
              "list": gem.ListTensor, "concat": gem.Concatenate, "delta": gem.Delta, "failure": gem.Failure, "math": gem.MathFunction,
              "min": gem.MinValue, "max": gem.MaxValue, "cmp": gem.Comparison, "not": gem.LogicalNot, "and": gem.LogicalAnd,
              "or": gem.LogicalOr, "cond": gem.Conditional, "scalar": gem.Literal, "flex": gem.FlexiblyIndexed}


class G(Substitutable):
    def __init__(self, kind, args, shape):
        self.kind, self.args, self.shape = kind, tuple(args), shape if isinstance(shape, Seq) else Seq([Elem(x) for x in shape], "tuple")
    def subst(self, f):
        return G(self.kind, [a if isinstance(a, (str, type(None))) else f(a) for a in self.args], f(self.shape))
    def parts(self): return [a for a in self.args if not isinstance(a, (str, type(None)))] + [self.shape]
    def pytype(self): return KIND_CLASS.get(self.kind, gem.Node)
    def sym_iter(self, it):
        """the old sequence protocol: node[0], node[1], ... up to the first invalid index"""
        sh = [it.eng.force(deref(p.v)) if isinstance(p, Elem) else None for p in it.eng.norm(self.shape).pieces]
        if len(sh) != 1 or not isinstance(sh[0], int):
            raise Unsupported("iteration over a GEM node")
        return Seq([Elem(indexed(it, self, Seq([Elem(i)], "tuple"))) for i in range(sh[0])])
    def sym_getattr(self, it, name):
        if name == "shape":
            return it.mk(it.eng.norm(self.shape), "tuple")
        if name == "array" and self.kind == "arr":
            return self.args[0]
        if name == "array" and self.kind == "list":
            return it.eng.new_list(as_seq(self.args[0]))
        if name == "name" and self.kind == "tensor":
            return self.args[0]
        if name == "free_indices":
            if self.kind in ("tensor", "zero", "identity", "arr", "scalar"):
                return ()
        if name == "children" and self.kind in ("sum", "prod", "div", "pow"):
            return tuple(self.args)
        if name == "children" and self.kind in ("indexed", "ct", "isum"):
            return (self.args[0],)
        if name == "multiindex" and self.kind in ("indexed", "ct", "isum"):
            return it.mk(self.args[1].as_kind("tuple"), "tuple")
        if name == "T":
            raise Unsupported("transpose of a GEM tensor")
        if name == "dtype":
            return App("gem.dtype", (self.kind,))
        raise Unsupported(f"attribute {name} of GEM {self.kind}")
    def sym_getitem(self, it, k):
        return indexed(it, self, as_mi(it, k))
    def sym_binop(self, it, op, o):
        return node_op(it, op, self, o)
    def sym_rbinop(self, it, op, o):
        return node_op(it, op, o, self)
    def sym_neg(self, it):
        return node_op(it, "*", -1, self)
    def sym_eq(self, it, o):
        # syntactic equality of GEM expressions is not decided by the denotation
        if o is self:
            return True
        if isinstance(o, G) and self.kind == o.kind == "tensor" and isinstance(self.args[0], str) and isinstance(o.args[0], str) and not self.args[1] and not o.args[1]:
            # variables: same name and shape
            return self.args[0] == o.args[0] and it.eq(it.mk(it.eng.norm(self.shape), "tuple"), it.mk(it.eng.norm(o.shape), "tuple"))
        raise Unsupported("== of GEM expressions")
    def sym_truth(self, it): return True
    def equal_to(self, eng, o, name):
        if not isinstance(o, G):
            if num_kind(o) in ("int", "real"):
                o = const(o)
            else:
                return eng.fail(name, f"{self!r} vs {o!r}")
        return tensor_equal(eng.interp, self, o, name)
    def __repr__(self): return f"G<{self.kind} {self.args!r}>"


class Fun(G):
    """specification tensor given by a Python function of the slots (list of Slot) -> z3 real"""
    def __init__(self, shape, fn):
        super().__init__("fun", (), shape)
        self.fn = fn
    def subst(self, f):
        sh = f(self.shape)
        def fn(slots, f=f, old=self.fn):
            fr = [Slot(s.kind, fresh_int() if s.kind == "i" else fresh_u(), s.n) for s in slots]
            r = f(old(fr))
            return z3.substitute(r, *[(a.term, b.term) for a, b in zip(fr, slots)]) if fr else r
        return Fun(sh, fn)
    def parts(self):
        # over-approximation: evaluate at generic slots
        fr = generic_slots(None, self.shape)
        return [self.shape, self.fn(fr)]


def const(v):
    return G("scalar", (v if isinstance(v, SReal) else SReal(zr(v)),), ())


def tensor(name, params, shape):
    """opaque tensor name(params) of the given shape; params are terms or scalar GEM expressions"""
    return G("tensor", (name, tuple(wrapz(p) if isinstance(p, z3.ExprRef) else p for p in params)), shape if isinstance(shape, Seq) else as_seq(shape))


def as_node(it, v):
    v = it.eng.force(deref(v))
    if isinstance(v, G):
        return v
    if isinstance(v, gem.Node):
        return lift_node(it, v)
    if num_kind(v) in ("int", "real"):
        return const(v)
    s = as_seq(v)
    if s is not None:
        return list_tensor(it, v)
    from .ndarray import NArr
    if isinstance(v, NArr):
        return G("arr", (v,), v.shape_seq(it))
    raise Unsupported(f"not a GEM expression: {v!r}")


def lift_node(it, v):
    if isinstance(v, gem.Zero):
        return G("zero", (), v.shape)
    if isinstance(v, gem.Identity):
        return G("identity", (v.dim,), v.shape)
    if isinstance(v, gem.Literal):
        return literal(it, v.array)
    raise Unsupported(f"native GEM node {type(v).__name__}")


def literal(it, a):
    from .ndarray import NArr
    a = it.eng.force(deref(a))
    if num_kind(a) in ("int", "real"):
        return const(a)
    if isinstance(a, (bool, numpy.bool_)):
        return const(int(a))
    if isinstance(a, SBool):
        return const(SReal(z3.If(a.e, z3.RealVal(1), z3.RealVal(0))))
    if isinstance(a, numpy.ndarray) and (a.dtype != object or all(num_kind(x) in ("int", "real") for x in a.flat)):
        if a.shape == ():
            return const(a[()] if a.dtype == object else float(a))
        return G("arr", (NArr.concrete(a),), a.shape)
    if isinstance(a, NArr):
        return G("arr", (a,), a.shape_seq(it))
    s = as_seq(a)
    if s is not None:
        n = NArr.from_seq(it, s)
        return G("arr", (n,), n.shape_seq(it))
    if isinstance(a, App):
        raise Unsupported(f"literal of {a!r}")
    raise Unsupported(f"literal of {a!r}")


def scalar_op(it, kind, *ch, extra=()):
    ch = [as_node(it, c) for c in ch]
    for c in ch:
        if it.eng.norm(c.shape).pieces:
            it.eng.prove(it.eng.seq_len(it.eng.norm(c.shape)) == 0, f"GEM: operand of {kind} is scalar")
    return G(kind, (*extra, *ch), ())


def node_op(it, op, a, b):
    kinds = {"+": "sum", "*": "prod", "/": "div", "**": "pow"}
    a, b = as_node(it, a), as_node(it, b)
    if op == "-":
        return node_op(it, "+", a, node_op(it, "*", const(-1), b))
    if op not in kinds:
        raise Unsupported(f"GEM operator {op}")
    sa, sb = it.eng.norm(a.shape), it.eng.norm(b.shape)
    if not sa.pieces and not sb.pieces:
        return scalar_op(it, kinds[op], a, b)
    # componentwise, scalars broadcast
    sh = sa if sa.pieces else sb
    if sa.pieces and sb.pieces:
        it.eng.equal(sa.as_kind("tuple"), sb.as_kind("tuple"), "GEM: componentwise operands have equal shapes")
    return G("cw", (kinds[op], a, b), sh)


def indexed(it, t, mi):
    t = as_node(it, t)
    mi = as_mi(it, mi)
    e = it.eng
    sh = e.norm(t.shape)
    if isinstance(mi, NdIndex):
        e.equal(it.mk(e.norm(as_seq(mi.shape)), "tuple"), it.mk(sh, "tuple"), "GEM: multi-index over the tensor's shape")
        return G("indexed", (t, mi), ())
    if not mi.pieces and not sh.pieces:
        return t
    # check extents piecewise
    a, b = list(mi.pieces), list(sh.pieces)
    if len(a) != len(b):
        raise PyRaise(AssertionError, ("GEM: number of indices differs from the rank", f"{mi} into shape {sh}"))
    for x, d in zip(a, b):
        if isinstance(x, Elem) != isinstance(d, Elem):
            raise Unsupported(f"multi-index {mi} into shape {sh}")
        if isinstance(x, Elem):
            v = e.force(deref(x.v))
            if isinstance(v, GIndex):
                set_extent(it, v, d.v)
            elif num_kind(v) == "int":
                c = z3.And(zi(v) >= 0, zi(v) < zi(d.v))
                if not e.entails(c) and e.entails(z3.Not(c)):
                    raise PyRaise(IndexError, ("Invalid literal index",))
                e.prove(c, "GEM: literal index within bounds")
            elif isinstance(v, VarIndex):
                pass
            else:
                raise PyRaise(AssertionError, ("not an index",))
        else:
            g = deref(x.body.pieces[0].v) if len(x.body.pieces) == 1 and isinstance(x.body.pieces[0], Elem) else None
            if not isinstance(g, GIndex):
                raise Unsupported(f"multi-index piece {x}")
            e.prove(x.dom.n == d.dom.n, "GEM: as many indices as dimensions")
            base = len(e.pc)
            e.pc.append(x.dom.constraint(x.var))
            try:
                set_extent(it, g, subst(d.body.pieces[0].v, [(d.var, x.var)]))
            finally:
                del e.pc[base:]
    return G("indexed", (t, mi), ())


def shape_of_indices(it, idxs):
    out = []
    for p in idxs.pieces:
        if isinstance(p, Elem):
            g = it.eng.force(deref(p.v))
            if not isinstance(g, GIndex):
                raise PyRaise(AttributeError, ("extent",))
            x = extent_of(it, g)
            if x is None:
                raise PyRaise(TypeError, ("index without extent",))
            out.append(Elem(x))
        elif isinstance(p, Flat):
            g = deref(p.body.pieces[0].v)
            x = extent_of(it, g)
            if x is None:
                raise PyRaise(TypeError, ("index without extent",))
            out.append(Flat(p.var, p.dom, Seq([Elem(x)])))
        else:
            raise Unsupported("component tensor")
    return Seq(out, "tuple")


def component_tensor(it, e, idxs):
    e = as_node(it, e)
    idxs = as_mi(it, idxs)
    if it.eng.norm(e.shape).pieces:
        raise PyRaise(AssertionError, ("GEM: component tensor of a tensor",))
    if not idxs.pieces:
        return e
    return G("ct", (e, idxs), shape_of_indices(it, idxs))


def index_sum(it, e, idxs):
    e = as_node(it, e)
    idxs = as_mi(it, idxs)
    if it.eng.norm(e.shape).pieces:
        raise PyRaise(AssertionError, ("GEM: index sum of a tensor",))
    return G("isum", (e, idxs), ()) if idxs.pieces else e


def partial_indexed(it, t, idxs):
    t = as_node(it, t)
    idxs = as_mi(it, idxs)
    e = it.eng
    sh = e.norm(t.shape)
    n = e.seq_len(idxs)
    rest = it.drop(list(sh.pieces), n) if idxs.pieces else list(sh.pieces)
    if not idxs.pieces:
        return t
    if not rest:
        return indexed(it, t, idxs)
    extra = []
    for p in rest:
        if isinstance(p, Elem):
            extra.append(Elem(new_index(it, p.v)))
        else:
            k = fresh_int()
            binders = getattr(e, "binders", [])
            e.binders = list(binders) + [k]
            g = new_index(it, subst(p.body.pieces[0].v, [(p.var, k)]))
            e.binders = binders
            extra.append(Flat(k, p.dom, Seq([Elem(g)])))
    ex = Seq(extra, "tuple")
    return component_tensor(it, indexed(it, t, Seq(list(idxs.pieces) + extra, "tuple")), ex)


def list_tensor(it, a):
    from .ndarray import NArr
    a = it.eng.force(deref(a))
    if isinstance(a, NArr):
        if a.shape and len(a.shape) == 1:
            s = a.to_seq(it)
        else:
            return G("arrlist", (a,), a.shape_seq(it))
    elif isinstance(a, numpy.ndarray):
        s = Seq([Elem(x) for x in a])
    else:
        s = it.eng.norm(it.iter_seq(a))
    ch = it.map_seq(lambda x: list_tensor(it, x) if isinstance(it.eng.force(deref(x)), (PList, list, numpy.ndarray)) else as_node(it, x), s)
    ch = it.eng.norm(ch)
    first = None
    st = list(ch.pieces)
    while st:
        p = st.pop(0)
        if isinstance(p, Elem):
            first = p.v
            break
        if isinstance(p, Flat):
            st = list(p.body.pieces) + st
        elif isinstance(p, Alt):
            st = [x for _, s2 in p.cases for x in s2.pieces] + st
    if first is None:
        raise PyRaise(AssertionError, ("empty ListTensor",))
    sub = it.eng.norm(first.shape) if isinstance(first, G) else Seq()
    return G("list", (ch,), Seq([Elem(SInt(it.eng.seq_len(ch)))] + list(sub.pieces), "tuple"))


# ---------------------------------------------------------------------------------------------- denotation
def den(it, g, slots, env=()):
    e = it.eng
    if isinstance(g, Choice):
        out = None
        for c, v in reversed(g.cases):
            x = den(it, v, slots, env)
            out = x if out is None else z3.If(c, x, out)
        return out
    if num_kind(g) in ("int", "real"):
        return zr(g)
    g = as_node(it, g)
    k = g.kind
    if k == "fun":
        return g.fn(slots)
    if k == "tensor":
        return opaque_at(it, g.args[0], [den_slot(it, x, env) if isinstance(x, G) else x for x in g.args[1]], slots)
    if k == "scalar":
        return g.args[0].e
    if k == "zero":
        return z3.RealVal(0)
    if k == "identity":
        a, b = slots
        return z3.If(a.term == b.term, z3.RealVal(1), z3.RealVal(0))
    if k == "arr":
        if any(s.kind != "i" for s in slots):
            raise Unsupported("abstract rank into a literal")
        return zr(it.eng.force(g.args[0].at(it, [s.term for s in slots])))
    if k == "arrlist":
        return den(it, g.args[0].at(it, [s.term for s in slots]), [], env)
    if k == "sum":
        return z3.Sum([den(it, c, [], env) for c in g.args])
    if k == "prod":
        r = None
        for c in g.args:
            x = den(it, c, [], env)
            r = x if r is None else r * x
        return r
    if k == "div":
        return den(it, g.args[0], [], env) / den(it, g.args[1], [], env)
    if k == "pow":
        b, x = den(it, g.args[0], [], env), z3.simplify(den(it, g.args[1], [], env))
        return power(b, x)
    if k == "cw":
        op, a, b = g.args
        da = den(it, a, slots if e.norm(a.shape).pieces else [], env)
        db = den(it, b, slots if e.norm(b.shape).pieces else [], env)
        return {"sum": lambda: da + db, "prod": lambda: da * db, "div": lambda: da / db, "pow": lambda: power(da, db)}[op]()
    if k == "prodfam":
        return den_prodfam(it, g.args[0], env)
    if k == "sumfam":
        return den_fold(it, "sum", g.args[0], env)
    if k in ("cmp", "not", "and", "or", "orfam", "andfam"):
        return z3.If(den_bool(it, g, env), z3.RealVal(1), z3.RealVal(0))
    if k == "delta":
        i, j = [slots_of(it, Seq([Elem(x)]), env)[0] for x in g.args]
        return z3.If(i.term == j.term, z3.RealVal(1), z3.RealVal(0))
    if k == "indexed":
        return den(it, g.args[0], slots_of(it, g.args[1], env), env)
    if k == "ct":
        ks = [index_key(it, p) for p in as_mi(it, g.args[1]).pieces]
        if len(ks) != len(slots):
            raise Unsupported(f"component tensor over {g.args[1]} evaluated at {slots}")
        new = []
        for key, s in zip(ks, slots):
            if key[0] != s.kind:
                raise Unsupported("axis family against single axis")
            new.append((key[0], key[1].id if key[0] == "i" else key[1], key[1].ps if key[0] == "i" else key[2], s.term))
        return den(it, g.args[0], [], tuple(env) + tuple(new))
    if k == "isum":
        return den_sum(it, g.args[0], list(as_mi(it, g.args[1]).pieces), tuple(env))
    if k == "list":
        return den_list(it, e.norm(as_seq(g.args[0])), slots, env)
    if k == "concat":
        return den_concat(it, e.norm(as_seq(g.args[0])), slots, env)
    if k == "math" and g.args[0] == "abs":
        x = den(it, g.args[1], [], env)
        return z3.If(x < 0, -x, x)
    if k == "math":
        f = z3.Function("gem_" + str(g.args[0]), *[R] * (len(g.args) - 1), R)
        return f(*[den(it, c, [], env) for c in g.args[1:]])
    if k in ("min", "max"):
        a, b = [den(it, c, [], env) for c in g.args]
        return z3.If(a <= b, a, b) if k == "min" else z3.If(a >= b, a, b)
    if k == "cond":
        c, a, b = g.args
        return z3.If(den_bool(it, c, env), den(it, a, [], env), den(it, b, [], env))
    raise Unsupported(f"denotation of GEM {k}")


def power(b, x):
    x = z3.simplify(x)
    if z3.is_rational_value(x) and x.denominator_as_long() == 1 and abs(x.numerator_as_long()) <= 12:
        n = x.numerator_as_long()
        r = z3.RealVal(1)
        for _ in range(abs(n)):
            r = r * b
        return r if n >= 0 else z3.RealVal(1) / r
    return z3.Function("gem_power", R, R, R)(b, x)


def den_bool(it, g, env):
    k = g.kind
    if k == "cmp":
        op, a, b = g.args
        a, b = den(it, a, [], env), den(it, b, [], env)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if k == "not":
        return z3.Not(den_bool(it, g.args[0], env))
    if k == "and":
        return z3.And(*[den_bool(it, c, env) for c in g.args])
    if k == "or":
        return z3.Or(*[den_bool(it, c, env) for c in g.args])
    if k in ("orfam", "andfam"):
        return den_fold(it, k[:-3], g.args[0], env)
    return den(it, g, [], env) != 0


def den_slot(it, x, env):
    """a scalar GEM expression as an argument of an opaque tensor"""
    return den(it, x, [], env)


def opaque_at(it, name, params, slots):
    name = name if isinstance(name, str) else repr(name)
    ps = [p.e if isinstance(p, SCALARS) else (z3.IntVal(int(p)) if isinstance(p, int) else p) for p in params]
    ts = [s.term for s in slots]
    return z3.Function(name, *[p.sort() for p in ps], *[t.sort() for t in ts], R)(*ps, *ts)


def den_prodfam(it, s, env):
    """product over a (possibly symbolic) sequence of scalars"""
    e = it.eng
    r = z3.RealVal(1)
    for p in e.norm(s).pieces:
        if isinstance(p, Elem):
            r = r * den(it, p.v, [], env)
        elif isinstance(p, Flat) and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
            b = p.body.pieces[0].v
            if isinstance(b, G) and b.kind == "delta" and all(isinstance(deref(x), GIndex) for x in b.args):
                # product of Kronecker deltas over an axis family: equality of the multi-indices
                ts = [lookup(it, env, index_key(it, Flat(p.var, p.dom, Seq([Elem(x)])))) for x in b.args]
                r = r * z3.If(ts[0] == ts[1], z3.RealVal(1), z3.RealVal(0))
            else:
                v = p.dom.fresh()
                base = len(e.pc)
                e.pc.append(p.dom.constraint(v))
                try:
                    x = den(it, subst(b, [(p.var, v)]), [], env)
                finally:
                    del e.pc[base:]
                r = r * e.sum_over(v, p.dom, x, "PROD")
        else:
            raise Unsupported(f"product over {p}")
    return r


def den_fold(it, op, s, env):
    """sum / conjunction / disjunction over a (possibly symbolic) sequence of scalars"""
    e = it.eng
    out = []
    for p in e.norm(s).pieces:
        if isinstance(p, Elem):
            out.append(den(it, p.v, [], env) if op == "sum" else den_bool(it, as_node(it, p.v), env))
        elif isinstance(p, Flat) and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
            v = p.dom.fresh()
            base = len(e.pc)
            e.pc.append(p.dom.constraint(v))
            try:
                b = subst(p.body.pieces[0].v, [(p.var, v)])
                x = den(it, b, [], env) if op == "sum" else den_bool(it, as_node(it, b), env)
            finally:
                del e.pc[base:]
            if op == "sum":
                out.append(real_sum(it, v, p.dom, x))
            else:
                c = p.dom.constraint(v)
                out.append(z3.ForAll([v], z3.Implies(c, x)) if op == "and" else z3.Exists([v], z3.And(c, x)))
        else:
            raise Unsupported(f"{op} over {p}")
    return {"sum": z3.Sum, "and": z3.And, "or": z3.Or}[op](out)


def den_sum(it, body, pieces, env):
    e = it.eng
    if not pieces:
        return den(it, body, [], env)
    p = pieces[0]
    key = index_key(it, p)
    if key[0] == "i":
        n = zi(e.force(extent_of(it, key[1])))
        v, d = fresh_int("s"), Dom(n=n)
        bind = ("i", key[1].id, key[1].ps, v)
    else:
        sh = shape_of_indices(it, Seq([p]))
        v, d = fresh_u("s"), Dom(keys=KeySet("multiindices", shape_u(it, sh), U))
        bind = ("u", key[1], key[2], v)
    base = len(e.pc)
    e.pc.append(d.constraint(v))
    try:
        b = den_sum(it, body, pieces[1:], env + (bind,))
    finally:
        del e.pc[base:]
    return real_sum(it, v, d, b)


def factors_of(t):
    if z3.is_mul(t):
        return [f for c in t.children() for f in factors_of(c)]
    return [t]


def real_sum(it, v, d, body):
    """sum over v in d of body, with sums of Kronecker deltas evaluated"""
    e = it.eng
    if v.get_id() not in zconsts(body):
        n = d.size()
        return body * z3.ToReal(n) if n.sort() == I else body * n
    if z3.is_add(body):
        return z3.Sum([real_sum(it, v, d, c) for c in body.children()])
    if z3.is_sub(body):
        cs = body.children()
        return real_sum(it, v, d, cs[0]) - z3.Sum([real_sum(it, v, d, c) for c in cs[1:]])
    if z3.is_app_of(body, z3.Z3_OP_UMINUS):
        return -real_sum(it, v, d, body.children()[0])
    fs = factors_of(body)
    for i, f in enumerate(fs):
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            c, a, b = f.children()
            if z3.is_eq(c) and any(x.eq(v) for x in c.children()):
                x, y = c.children()
                t = y if x.eq(v) else x
                if v.get_id() in zconsts(t) or v.get_id() in zconsts(a):
                    continue
                rest = fs[:i] + fs[i + 1:]
                if not (z3.is_rational_value(b) and b.numerator_as_long() == 0):
                    continue
                val = a
                for q in rest:
                    val = val * z3.substitute(q, (v, t))
                inside = d.constraint(t)
                if e.entails(inside):
                    return val
                return z3.If(inside, val, z3.RealVal(0))
    for i, f in enumerate(fs):
        if z3.is_add(f):
            rest = fs[:i] + fs[i + 1:]
            out = []
            for c in f.children():
                t = c
                for q in rest:
                    t = t * q
                out.append(real_sum(it, v, d, t))
            return z3.Sum(out)
    out = [f for f in fs if v.get_id() not in zconsts(f)]
    inn = [f for f in fs if v.get_id() in zconsts(f)]
    b = inn[0]
    for f in inn[1:]:
        b = b * f
    if d.keys is None:
        n = z3.simplify(d.n)
        if z3.is_int_value(n) and n.as_long() <= 8:
            r = z3.Sum([z3.substitute(b, (v, z3.IntVal(i))) for i in range(max(n.as_long(), 0))]) if n.as_long() > 0 else z3.RealVal(0)
        else:
            r = e.sum_over(v, d, b)
    else:
        r = e.sum_over(v, d, b)
    for f in out:
        r = f * r
    return r


def den_list(it, s, slots, env):
    """element of a list tensor at position slots[0]"""
    e = it.eng
    if not slots or slots[0].kind != "i":
        raise Unsupported("list tensor indexed by an axis family")
    m, rest = slots[0].term, slots[1:]
    pos = z3.IntVal(0)
    cases = []
    def walk(pieces, pos, guard):
        for p in pieces:
            if isinstance(p, Elem):
                cases.append((z3.And(*guard, m == pos), lambda p=p: den(it, p.v, rest, env)))
                pos = z3.simplify(pos + 1)
            elif isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                q = z3.simplify(m - pos)
                g = z3.And(*guard, q >= 0, q < p.dom.n)
                cases.append((g, lambda p=p, q=q: den(it, subst(p.body.pieces[0].v, [(p.var, q)]), rest, env)))
                pos = z3.simplify(pos + p.dom.n)
            elif isinstance(p, Flat) and p.dom.keys is None and single(p.body):
                q = z3.simplify(m - pos)
                one(subst(p.body, [(p.var, q)]), guard + [q >= 0, q < p.dom.n])
                pos = z3.simplify(pos + p.dom.n)
            elif isinstance(p, Alt):
                l = e.piece_len(p)
                for g, x in p.cases:
                    walk(x.pieces, pos, guard + [g])
                pos = z3.simplify(pos + l)
            else:
                raise Unsupported(f"list tensor piece {p}")
        return pos
    def single(s):
        return len(s.pieces) == 1 and (isinstance(s.pieces[0], Elem) or
                                       isinstance(s.pieces[0], Alt) and all(single(x) for _, x in s.pieces[0].cases))
    def one(s, guard):
        p = s.pieces[0]
        if isinstance(p, Elem):
            cases.append((z3.And(*guard), lambda: den(it, p.v, rest, env)))
        else:
            for g, x in p.cases:
                one(x, guard + [g])
    walk(s.pieces, pos, [])
    out = None
    live = []
    for g, f in cases:
        g = z3.simplify(g)
        if z3.is_false(g):
            continue
        base = len(e.pc)
        e.pc.append(g)
        try:
            if e.feasible(z3.BoolVal(True)):
                live.append((g, f()))
        finally:
            del e.pc[base:]
    for g, x in reversed(live):
        out = x if out is None else z3.If(g, x, out)
    if out is None:
        raise Unsupported("list tensor index out of range")
    return out


def unravel_slots(it, shape, p):
    """slots of the p-th (C order) entry of a shape"""
    sh = it.eng.norm(shape)
    ps = sh.pieces
    if not ps:
        return []
    if len(ps) == 1 and isinstance(ps[0], Elem):
        return [Slot("i", p)]
    if len(ps) == 1 and isinstance(ps[0], Flat):
        return [Slot("u", unravel_u(it, sh, p), ps[0].dom.n)]
    if sh.concrete:
        return [Slot("i", zi(x)) for x in unravel(it, p, [x.v for x in ps])]
    # families among single axes: split off sizes from the right
    out = []
    for q in reversed(ps):
        size = zi(q.v) if isinstance(q, Elem) else sum_pieces(it, Seq([q]), "PROD")
        lo = p % size
        out.append(Slot("i", lo) if isinstance(q, Elem) else Slot("u", unravel_u(it, Seq([q]), lo), q.dom.n))
        p = p / size
    return out[::-1]


def unravel(it, i, dims):
    """components of a flat C-order index: the facts characterise them"""
    e = it.eng
    i = z3.simplify(i)
    known = e.__dict__.setdefault("ravels", {})
    ds = [zi(d) for d in dims]
    for r in known.get(i.get_id(), []):
        if r[0].eq(i) and len(r[2]) == len(ds) and all(a.eq(z3.simplify(b)) for a, b in zip(r[2], ds)):
            return r[1]
    comps = [z3.Function(f"unravel{len(ds)}_{j}", *[I] * (1 + len(ds)), I)(i, *ds) for j in range(len(ds))]
    flat, n = z3.IntVal(0), z3.IntVal(1)
    for c, d in zip(comps, ds):
        flat = flat * d + c
        n = n * d
    e.fact(z3.Implies(z3.And(i >= 0, i < n, *[d > 0 for d in ds]),
                      z3.And(flat == i, *[z3.And(c >= 0, c < d) for c, d in zip(comps, ds)])))
    return [SInt(c) for c in comps]


def ravel(it, idx, dims):
    """flat C-order index; remembered so that unravelling it gives the components back (they are within bounds)"""
    e = it.eng
    r = z3.IntVal(0)
    for x, d in zip(idx, dims):
        r = r * zi(d) + zi(x)
    r = z3.simplify(r)
    ds = [zi(d) for d in dims]
    if all(e.entails(z3.And(zi(x) >= 0, zi(x) < d)) for x, d in zip(idx, ds)):
        e.__dict__.setdefault("ravels", {}).setdefault(r.get_id(), []).append((r, [SInt(zi(x)) for x in idx], [z3.simplify(d) for d in ds]))
    if len(ds) > 1 and not z3.is_int_value(r):
        # the same for a component of an index that was a bound variable when it was unravelled
        bounds = [z3.And(zi(x) >= 0, zi(x) < d) for x, d in zip(idx, ds)]
        e.fact(z3.Implies(z3.And(*bounds), z3.And(*[z3.Function(f"unravel{len(ds)}_{j}", *[I] * (1 + len(ds)), I)(r, *ds) == zi(x) for j, x in enumerate(idx)])))
    return r


def node_size(it, v):
    t = z3.IntVal(1)
    for q in it.eng.norm(v.shape).pieces:
        t = t * (zi(it.eng.force(q.v)) if isinstance(q, Elem) else sum_pieces(it, Seq([q]), "PROD"))
    return z3.simplify(t)


def den_concat(it, s, slots, env):
    e = it.eng
    (m,) = slots
    m = m.term
    pos = z3.IntVal(0)
    cases = []
    for p in s.pieces:
        q = z3.simplify(m - pos)
        if isinstance(p, Elem):
            c = as_node(it, p.v)
            n = node_size(it, c)
            cases.append((z3.And(q >= 0, q < n), lambda c=c, q=q: den(it, c, unravel_slots(it, c.shape, q), env)))
            pos = z3.simplify(pos + n)
        elif isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
            u = fresh_int("ch")
            child = lambda i, p=p: as_node(it, subst(p.body.pieces[0].v, [(p.var, i)]))
            base = len(e.pc)
            e.pc.append(p.dom.constraint(u))
            try:
                size = node_size(it, child(u))
            finally:
                del e.pc[base:]
            off = lambda i, u=u, size=size: e.sum_over(fresh_like(u), Dom(n=i), z3.substitute(size, (u, last_fresh[0])))
            total = off(p.dom.n)
            sel = which_child(it, u, size, p.dom.n, q, off)
            cases.append((z3.And(q >= 0, q < total),
                          lambda child=child, sel=sel, q=q, off=off: den(it, child(sel), unravel_slots(it, child(sel).shape, z3.simplify(q - off(sel))), env)))
            pos = z3.simplify(pos + total)
        else:
            raise Unsupported(f"concatenation of {p}")
    live = []
    for g, f in cases:
        base = len(e.pc)
        e.pc.append(g)
        try:
            if e.feasible(z3.BoolVal(True)):
                live.append((g, f()))
        finally:
            del e.pc[base:]
    out = None
    for g, x in reversed(live):
        out = x if out is None else z3.If(g, x, out)
    if out is None:
        raise Unsupported("concatenation index out of range")
    return out


last_fresh = [None]


def fresh_like(u):
    last_fresh[0] = fresh_int()
    return last_fresh[0]


def which_child(it, u, size, n, q, off):
    """the block of a concatenation containing flat position q: characterised by off(i) <= q < off(i+1)"""
    e = it.eng
    size = z3.simplify(size)
    consts = sorted([c for c in zconst_terms(size).values() if not c.eq(u)], key=str)
    txt = z3.substitute(size, (u, z3.Int("bv_Int")), *[(c, z3.Const(f"a{i}", c.sort())) for i, c in enumerate(consts)]).sexpr()
    sel = z3.Function("block<" + txt + ">", *[c.sort() for c in consts], I, I, I)(*consts, n, z3.simplify(q))
    at = lambda i: z3.substitute(size, (u, i))
    e.fact(z3.Implies(z3.And(q >= 0, q < off(n)), z3.And(sel >= 0, sel < n, off(sel) <= q, q < off(sel) + at(sel))))
    # uniqueness, instantiated at the offsets occurring in q (lemma: offsets of non-empty blocks are monotone)
    o = off(u)
    for t in e.sum_apps(q):
        if t.decl().eq(o.decl()) and all(a.eq(b) for a, b in zip(t.children()[:-1], o.children()[:-1])):
            i = t.children()[-1]
            e.fact(z3.Implies(z3.And(i >= 0, i < n, t <= q, q < t + at(i)), sel == i))
    return sel


# ---------------------------------------------------------------------------------------------- comparison
def generic_slots(it, shape):
    out = []
    for p in (it.eng.norm(shape) if it is not None else shape).pieces:
        if isinstance(p, Elem):
            c = fresh_int("x")
            if it is not None:
                it.eng.pc.append(z3.And(c >= 0, c < zi(it.eng.force(p.v))))
            out.append(Slot("i", c))
        elif isinstance(p, Flat):
            c = fresh_u("x")
            if it is not None:
                ks = KeySet("multiindices", shape_u(it, Seq([p])), U)
                it.eng.pc.append(ks.member(c))
            out.append(Slot("u", c, p.dom.n))
        else:
            raise Unsupported(f"generic multi-index of {shape}")
    return out


def tensor_equal(it, a, b, name):
    e = it.eng
    r = e.equal(it.mk(e.norm(a.shape), "tuple"), it.mk(e.norm(b.shape), "tuple"), name + ": shape")
    base = len(e.pc)
    try:
        slots = generic_slots(it, b.shape if b.kind == "fun" else a.shape)
        try:
            x, y = den(it, a, slots), den(it, b, slots)
        except Unsupported:
            if not r:
                return False
            raise
        return e.prove(x == y, name + ": entries") and r
    finally:
        del e.pc[base:]


def value_at(it, g, *terms):
    """denotation at explicit slots"""
    return den(it, g, [t if isinstance(t, Slot) else Slot("i" if t.sort() == I else "u", t) for t in terms])


# ---------------------------------------------------------------------------------------------- models of the library
def uses(it, what):
    it.eng.assumptions.add(f"GEM node {what} denotes its documented tensor")


@model(gem.Index)
def m_index(it, a, kw):
    ext = kw.get("extent", a[1] if len(a) > 1 else None)
    return new_index(it, ext)


@model(gem.indices)
def m_indices(it, a, kw):
    n = it.eng.force(deref(a[0]))
    if isinstance(n, SInt):
        t = z3.simplify(n.e)
        if z3.is_int_value(t):
            n = t.as_long()
        else:
            k = fresh_int()
            binders = getattr(it.eng, "binders", [])
            it.eng.binders = list(binders) + [k]
            g = new_index(it)
            it.eng.binders = binders
            return it.mk(Seq([Flat(k, Dom(n=t), Seq([Elem(g)]))], "tuple"), "tuple")
    return tuple(new_index(it) for _ in range(n))


@model(gem.Indexed)
def m_indexed(it, a, kw):
    uses(it, "Indexed")
    return indexed(it, a[0], a[1])


@model(gem.ComponentTensor)
def m_ct(it, a, kw):
    uses(it, "ComponentTensor")
    return component_tensor(it, a[0], a[1])


@model(gem.IndexSum)
def m_isum(it, a, kw):
    uses(it, "IndexSum")
    return index_sum(it, a[0], a[1])


@model(gem.partial_indexed)
def m_pidx(it, a, kw):
    uses(it, "partial_indexed")
    return partial_indexed(it, a[0], a[1])


def _varop(kind, cls):
    @model(cls)
    def f(it, a, kw):
        uses(it, cls.__name__)
        if any(isinstance(x, Star) for x in a):
            raise Unsupported(f"{cls.__name__}(*symbolic)")
        if len(a) == 1:
            return as_node(it, a[0])
        return scalar_op(it, kind, *a)
    return f


for _k, _c in (("sum", gem.Sum), ("prod", gem.Product), ("div", gem.Division), ("pow", gem.Power), ("min", gem.MinValue),
               ("max", gem.MaxValue), ("and", gem.LogicalAnd), ("or", gem.LogicalOr)):
    _varop(_k, _c)


@model(gem.LogicalNot)
def m_not(it, a, kw):
    return scalar_op(it, "not", a[0])


@model(gem.Comparison)
def m_cmp(it, a, kw):
    uses(it, "Comparison")
    return scalar_op(it, "cmp", a[1], a[2], extra=(a[0],))


@model(gem.Conditional)
def m_cond(it, a, kw):
    uses(it, "Conditional")
    return scalar_op(it, "cond", *a)


@model(gem.MathFunction)
def m_math(it, a, kw):
    uses(it, "MathFunction")
    return scalar_op(it, "math", *a[1:], extra=(a[0],))


@model(gem.Zero)
def m_zero(it, a, kw):
    sh = a[0] if a else kw.get("shape", ())
    return G("zero", (), it.eng.norm(as_seq(it.eng.force(deref(sh)))))


@model(gem.Failure)
def m_failure(it, a, kw):
    return G("failure", (a[1],), it.eng.norm(as_seq(it.eng.force(deref(a[0])))))


@model(gem.Identity)
def m_ident(it, a, kw):
    return G("identity", (a[0],), (a[0], a[0]))


@model(gem.Literal)
def m_lit(it, a, kw):
    uses(it, "Literal")
    return literal(it, a[0])


@model(gem.Variable)
def m_var(it, a, kw):
    nm, sh = a[0], it.eng.norm(as_seq(it.eng.force(deref(a[1]))))
    return G("tensor", (nm if isinstance(nm, (str, SStr)) else nm, ()), sh)


@model(gem.ListTensor)
def m_lt(it, a, kw):
    uses(it, "ListTensor")
    return list_tensor(it, a[0])


@model(gem.Concatenate)
def m_concat(it, a, kw):
    uses(it, "Concatenate")
    ps = []
    for x in a:
        if isinstance(x, Star):
            ps.extend(it.eng.norm(it.map_seq(lambda y: as_node(it, y), x.seq)).pieces)
        else:
            ps.append(Elem(as_node(it, x)))
    s = Seq(ps)
    n = SInt(sum_pieces(it, it.map_seq(lambda y: SInt(node_size(it, y)), s)))
    return G("concat", (s,), (n,))


@model(gem.Delta)
def m_delta(it, a, kw):
    uses(it, "Delta")
    i, j = [it.eng.force(deref(x)) for x in a[:2]]
    si, sj = as_seq(i), as_seq(j)
    if si is not None and sj is not None:
        return product_of(it, it.map_seq(lambda t: m_delta(it, list(t), {}), it.zip_seqs([si, sj])))
    return G("delta", (i, j), ())


def product_of(it, s):
    s = it.eng.norm(s)
    if s.concrete:
        vs = [as_node(it, x) for x in s.items()]
        r = vs[0] if vs else const(1)
        for v in vs[1:]:
            r = scalar_op(it, "prod", r, v)
        return r
    return G("prodfam", (it.map_seq(lambda x: as_node(it, x), s),), ())


def _reduce_product(it, s, init, has):
    if not has:
        n = it.eng.seq_len(s)
        if not it.eng.entails(n >= 1):
            if it.eng.branch(n <= 0):
                raise PyRaise(TypeError, ("reduce() of empty sequence with no initial value",))
    r = product_of(it, s)
    return scalar_op(it, "prod", init, r) if has else r


def _reduce_fam(kind):
    def f(it, s, init, has):
        if not has:
            n = it.eng.seq_len(s)
            if not it.eng.entails(n >= 1):
                if it.eng.branch(n <= 0):
                    raise PyRaise(TypeError, ("reduce() of empty sequence with no initial value",))
        r = G(kind + "fam", (it.map_seq(lambda x: as_node(it, x), s),), ())
        return scalar_op(it, kind, init, r) if has else r
    return f


from .models import key_of          # noqa: E402
for _k, _c in (("sum", gem.Sum), ("and", gem.LogicalAnd), ("or", gem.LogicalOr)):
    REDUCERS[key_of(_c)] = _reduce_fam(_k)
REDUCERS[key_of(gem.Product)] = _reduce_product


@model(gem.as_gem)
def m_as_gem(it, a, kw):
    return as_node(it, a[0])


@model(gem.index_sum)
def m_gindex_sum(it, a, kw):
    raise Unsupported("gem.index_sum")


@model(gem.VariableIndex)
def m_vi(it, a, kw):
    return VarIndex(as_node(it, a[0]))


# value-preserving rewrites of the library: sum-product forms
@model(gem.optimise.traverse_product)
def m_trav(it, a, kw):
    it.eng.assumptions.add("gem.optimise rewrites preserve the denotation")
    return ((), (as_node(it, a[0]),))


@model(gem.optimise.delta_elimination)
def m_delim(it, a, kw):
    return tuple(a[:2])


@model(gem.optimise.sum_factorise)
def m_sumfac(it, a, kw):
    fs = it.eng.norm(as_seq(it.eng.force(deref(a[1]))))
    if fs.concrete and len(fs.pieces) == 1 and not as_mi(it, a[0]).pieces:
        return fs.items()[0]
    return index_sum(it, product_of(it, fs), a[0])


@model(gem.optimise.contraction)
def m_contr(it, a, kw):
    it.eng.assumptions.add("gem.optimise rewrites preserve the denotation")
    return as_node(it, a[0])
