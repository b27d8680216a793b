"""Elements with evaluation: the contract of basis_evaluation / point_evaluation / dual_basis assumed of sub-elements.

basis_evaluation(order, ps, entity) of an element returns one GEM expression per derivative multi-index of that order
(the abstract key set `derivatives(order)`), each of shape index_shape + value_shape, for the points and the entity
passed.  The tables are opaque tensors indexed by the element's parameters, the derivative, and the arguments received,
so that a caller passing the wrong order, points or entity denotes another tensor.
"""
import numpy
import z3
from pyvc.values import *
from pyvc import gemmodel as gm
from pyvc.engine import deref, zi, wrapz, as_seq
from pyvc.ndarray import NArr
from finat.finiteelementbase import FiniteElementBase
from .common import *

R = z3.RealSort()


def token(it, v):
    """a U-term naming an opaque argument (point set, entity, ...)"""
    v = it.eng.force(deref(v)) if v is not None else None
    if v is None:
        return z3.Const("None", U)
    if isinstance(v, SU):
        return v.e
    if isinstance(v, Obj):
        return z3.Function("obj_" + v.name, *[p.sort() for p in v.params], U)(*v.params)
    if isinstance(v, tuple):
        ts = [token(it, x) for x in v]
        return z3.Function(f"tuple{len(ts)}", *[U] * len(ts), U)(*ts)
    if isinstance(v, (int, numpy.integer)):
        v = int(v)
        return z3.Function("int_u", I, U)(z3.IntVal(v))
    if isinstance(v, SInt):
        return z3.Function("int_u", I, U)(v.e)
    if isinstance(v, str):
        return z3.Const("str_" + v, U)
    raise Unsupported(f"argument {v!r} of an abstract evaluation")


def point_args(it, ps):
    """what a table depends on: an opaque point set, or the coordinates of the point at the point indices"""
    ps = it.eng.force(deref(ps))
    if isinstance(ps, PObj):
        return point_coords(it, ps)
    if isinstance(ps, gm.G):
        (n,) = [zi(x) for x in it.eng.norm(ps.shape).items()]
        n = z3.simplify(n).as_long()
        return [gm.indexed(it, ps, Seq([Elem(c)], "tuple")) for c in range(n)]
    return [token(it, ps)]


def point_coords(it, ps):
    """coordinates (one GEM scalar each) of the point at the declared point indices, from the array of points"""
    pts = it.eng.force(deref(it.getattr(ps, "points")))
    ix = list(as_seq_(as_seq(it.eng.force(deref(it.getattr(ps, "indices"))))).items())
    if not isinstance(pts, NArr) or len(pts.shape) != 2 or not isinstance(pts.shape[1], int):
        raise Unsupported(f"points {pts!r}")
    ext = [gm.extent_of(it, i) for i in ix]
    def coord(c):
        # entry (flat position of the point indices, c)
        arr = NArr([zi(it.eng.force(x)) for x in ext], lambda it2, q, c=c: pts.at(it2, [gm.ravel(it2, [SInt(t) for t in q], ext) if q else z3.IntVal(0), z3.IntVal(c)]))
        n = z3.IntVal(1)
        for x in ext:
            n = n * zi(it.eng.force(x))
        it.eng.prove(n == (pts.shape[0] if z3.is_expr(pts.shape[0]) else z3.IntVal(pts.shape[0])), "the point indices range over the points")
        return gm.indexed(it, gm.G("arr", (arr,), arr.shape_seq(it)), Seq([Elem(i) for i in ix], "tuple")) if ix else gm.const(pts.at(it, [z3.IntVal(0), z3.IntVal(c)]))
    return [coord(c) for c in range(pts.shape[1])]


def order_term(it, v):
    v = it.eng.force(deref(v))
    return zi(v)


class EvalFam(ElementFam):
    """finite elements name(ps) with abstract index_shape and value_shape and opaque tables"""
    def __init__(self, name, cell=None, ishape=None, vshape=None, extra=None, cls=(FiniteElementBase,), notcls=()):
        self.ishape_f = (lambda it, ps: as_seq_(ishape(it, ps))) if ishape else (lambda it, ps: shape_fun(name + "_ishape", ps, it))
        self.vshape_f = (lambda it, ps: as_seq_(vshape(it, ps))) if vshape else (lambda it, ps: shape_fun(name + "_vshape", ps, it))
        ex = {"index_shape": lambda it, o: it.mk(self.ishape_f(it, o.params), "tuple"),
              "value_shape": lambda it, o: it.mk(self.vshape_f(it, o.params), "tuple"),
              "get_indices": method(lambda it, o: self.indices(it, self.ishape_f(it, o.params))),
              "get_value_indices": method(lambda it, o: self.indices(it, self.vshape_f(it, o.params))),
              "basis_evaluation": lambda it, o: Model(lambda it2, a, k: self.basis(it2, o, a, k), name + ".basis_evaluation"),
              "point_evaluation": lambda it, o: Model(lambda it2, a, k: self.point(it2, o, a, k), name + ".point_evaluation"),
              "dual_basis": lambda it, o: self.dual(it, o)}
        ex.update(extra or {})
        super().__init__(name, cell or CellFam(), extra=ex, cls=cls)
        self.schema.notcls = tuple(notcls)

    def obj(self, *ps):
        return Obj(self.name, ps, self.schema)

    def indices(self, it, shape):
        return it.mk(index_tuple(it, as_seq_(shape)), "tuple")

    def shape(self, it, ps):
        return Seq(list(as_seq_(self.ishape_f(it, ps)).pieces) + list(as_seq_(self.vshape_f(it, ps)).pieces), "tuple")

    # --- specification side
    def table(self, it, ps, alpha, order, pts, entity, cm=None, what="tab"):
        return gm.tensor(f"{self.name}_{what}", list(ps) + [alpha, order] + as_args(pts) + [entity] + ([cm] if cm is not None else []), self.shape(it, ps))

    def tables(self, it, ps, order, pts, entity, cm=None, what="tab", f=lambda al, t: t):
        al = fresh_u("alpha")
        ks = KeySet("derivatives", [order], U)
        return PDict(it.eng, Seq([Flat(al, Dom(keys=ks), Seq([Elem((SU(al), f(al, self.table(it, ps, al, order, pts, entity, cm, what))))]))]))

    # --- models
    def basis(self, it, o, a, k):
        a = list(a)
        names = ["order", "ps", "entity", "coordinate_mapping"]
        v = dict(zip(names, a)); v.update(k)
        return self.tables(it, o.params, order_term(it, v["order"]), point_args(it, v["ps"]), token(it, v.get("entity")),
                           token(it, v.get("coordinate_mapping")), "tab")

    def point(self, it, o, a, k):
        v = dict(zip(["order", "point", "entity"], a))
        for kk, x in k.items():
            v["point" if kk in ("refcoords", "point") else kk] = x
        return self.tables(it, o.params, order_term(it, v["order"]), point_args(it, v["point"]), token(it, v.get("entity")), None, "ptab")

    def dual(self, it, o):
        """(Q, points): Q of shape index_shape + value_shape at each point: free in the point indices"""
        rank = 1
        ix = self.points_indices(it, o)
        n = [gm.extent_of(it, i) for i in ix]
        sh = Seq([Elem(x) for x in n] + list(self.shape(it, o.params).pieces), "tuple")
        Q = gm.tensor(self.name + "_dualQ", list(o.params), sh)
        mi = [Elem(i) for i in ix]
        idx = index_tuple(it, self.shape(it, o.params))
        body = gm.indexed(it, Q, Seq(mi + list(idx.pieces), "tuple"))
        return (gm.component_tensor(it, body, idx), self.points(it, o))

    def points_indices(self, it, o):
        cache = it.eng.__dict__.setdefault("dual_ix", {})
        key = (self.name, tuple(p.get_id() for p in o.params))
        if key not in cache:
            n = ufun(self.name + "_npts", o.params, I)(*o.params)
            it.eng.fact(n >= 1) if not o.params else None
            i = gm.GIndex(f"pt_{self.name}", o.params)
            gm.store_extent(it, i, SInt(n))
            cache[key] = [i]
        return cache[key]

    def points(self, it, o):
        cache = it.eng.__dict__.setdefault("dual_pts", {})
        key = (self.name, tuple(p.get_id() for p in o.params))
        if key not in cache:
            ix = self.points_indices(it, o)
            cache[key] = Obj("points_" + self.name, o.params, Schema("points_" + self.name, {"indices": lambda it2, _: tuple(ix)}))
        return cache[key]


def as_args(pts):
    return list(pts) if isinstance(pts, (list, tuple)) else [pts]


def as_seq_(s):
    return s if isinstance(s, Seq) else Seq([Elem(v) for v in s], "tuple")


def index_tuple(it, shape):
    """fresh indices, one per axis of the shape (contract of FiniteElementBase.get_indices)"""
    out = []
    for p in as_seq_(shape).pieces:
        if isinstance(p, Elem):
            out.append(Elem(gm.new_index(it, p.v)))
        else:
            k = fresh_int()
            b = list(getattr(it.eng, "binders", []))
            it.eng.binders = b + [k]
            g = gm.new_index(it, subst(p.body.pieces[0].v, [(p.var, k)]))
            it.eng.binders = b
            out.append(Flat(k, p.dom, Seq([Elem(g)])))
    return Seq(out, "tuple")


def eq_slots(a, b):
    return z3.And(*[x.term == y.term for x, y in zip(a, b)])


def rargs(it):
    """generic arguments of an evaluation: order >= 0, opaque points and entity"""
    order = z3.Int("order")
    it.eng.assume(order >= 0)
    return SInt(order), SU(z3.Const("ps", U)), SU(z3.Const("entity", U))
