"""P10: quadrature rules - exactness is inherited from the library rules they are assembled from, with points and weights paired."""
from .evals import *
import itertools
import numpy
import FIAT
import gem
from FIAT.quadrature import GaussLegendreQuadratureLineRule
from FIAT.quadrature_schemes import create_quadrature
from FIAT.reference_element import LINE, QUADRILATERAL, TENSORPRODUCT, TRIANGLE, TETRAHEDRON, POINT, HEXAHEDRON, Cell
from finat import quadrature, point_set
from finat.quadrature import make_quadrature, QuadratureRule, TensorProductQuadratureRule, AbstractQuadratureRule
from finat.point_set import PointSet, GaussLegendrePointSet, TensorPointSet, AbstractPointSet
from pyvc.ndarray import NArr
from pyvc.engine import zr

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


SCHEME = lambda: SStr([App("scheme", ())])


def cellobj(shape, macro=False, **attrs):
    a = {"get_shape": method(lambda it, o: shape), "is_macrocell": method(lambda it, o: macro),
         "is_simplex": method(lambda it, o: shape in (POINT, LINE, TRIANGLE, TETRAHEDRON))}
    a.update(attrs)
    return Obj(f"cell{shape}", (), Schema(f"cell{shape}", a, cls=(Cell,)))


def ornt(*key):
    """the orientation map of an axis"""
    return Obj("ornt", key, Schema("ornt", {}))


def library_rule(it, tag, key, n, dim):
    """a rule of the library: n points paired with n weights"""
    X, W = NArr.opaque("X_" + tag, [key], [n, dim]), NArr.opaque("W_" + tag, [key], [n])
    o = Obj("rule_" + tag, (key,), Schema("rule_" + tag, {"get_points": method(lambda it2, o: X), "get_weights": method(lambda it2, o: W),
                                                          "pts": lambda it2, o: X, "wts": lambda it2, o: W,
                                                          "_intrinsic_orientation_permutation_map_tuple": lambda it2, o: (ornt(key),)}))
    return o, X, W


# ---- interval: Gauss-Legendre with enough points
class Recorded:
    pass


def gl_models(rec):
    def gl(it, a, kw):
        v = dict(zip(["ref_el", "m"], a)); v.update(kw)
        m = zi(it.eng.force(deref(v["m"])))
        it.eng.assumptions.add("FIAT GaussLegendreQuadratureLineRule(cell, m), m >= 1: m interior points and weights, exact to degree 2m-1")
        it.eng.prove(m >= 1, "at least one Gauss point")
        o, X, W = library_rule(it, "gl", z3.Const("gl", U), m, 1)
        rec.cell, rec.m, rec.X, rec.W, rec.o = v["ref_el"], m, X, W, o
        return o
    return {GaussLegendreQuadratureLineRule: gl}


def line_setup(rec, scheme):
    def setup(it):
        d = z3.Int("degree")
        it.eng.assume(d >= 0)
        c = cellobj(LINE)
        return [c, SInt(d)] + ([SCHEME()] if scheme else []), {}, (c, d, rec)
    return setup


def rule_pairs(it, r, X, W):
    """points and weights of a rule, entry by entry, in both views"""
    e = it.eng
    ps = it.getattr(r, "point_set")
    e.equal(it.getattr(ps, "points"), X, "the library rule's points, in order")
    e.equal(it.getattr(r, "weights"), W, "the library rule's weights, in order")
    (q,) = as_seq_(as_seq(it.getattr(ps, "indices"))).items()
    w = gm.as_node(it, it.getattr(r, "weight_expression"))
    e.equal(it.mk(e.norm(w.shape), "tuple"), (), "scalar weight expression")
    t = gm.lookup(it, (), ("i", q))
    n = W.shape[0]
    e.with_pc([z3.And(t >= 0, t < n)], lambda: e.prove(gm.den(it, w, []) == zr(W.at(it, [t])), "the weight at a point index is that point's weight"))
    return ps


def orientations(it, r, o):
    """the orientation maps of a rule are those of the library's rule"""
    it.eng.equal(it.getattr(r, "intrinsic_orientation_permutation_map_tuple"), it.getattr(o, "_intrinsic_orientation_permutation_map_tuple"), "the library rule's orientation maps")


def line_ens(it, ctx, r):
    c, d, rec = ctx
    e = it.eng
    e.equal(rec.cell, c, "rule on the cell requested")
    e.prove(2 * rec.m - 1 >= d, "exact to the requested degree")
    orientations(it, r, rec.o)
    ps = rule_pairs(it, r, rec.X, rec.W)
    e.prove(z3.BoolVal(it.type_of(ps) is GaussLegendrePointSet), "labelled Gauss-Legendre")
    e.equal(it.getattr(r, "ref_el"), c, "reference cell")


for scheme in (False, True):
    rec = Recorded()
    C(f"make_quadrature[interval{', any scheme' if scheme else ''}, every degree]", line_setup(rec, scheme), make_quadrature, line_ens, models=gl_models(rec))


# ---- other simplices and macro cells: the library's rule for that cell, degree and scheme
def scheme_models(rec):
    def cq(it, a, kw):
        v = dict(zip(["ref_el", "degree", "scheme", "entity"], a)); v.update(kw)
        it.eng.assumptions.add("FIAT create_quadrature(cell, degree, scheme): exact to the degree, points inside the cell, weights paired with points")
        n = z3.Int("rule_n")
        it.eng.assume(n >= 1)
        o, X, W = library_rule(it, "s", z3.Const("s", U), n, 2)
        rec.args, rec.X, rec.W, rec.o = v, X, W, o
        return o
    return {create_quadrature: cq}


def simplex_setup(rec, shape, macro, scheme):
    def setup(it):
        d = z3.Int("degree")
        it.eng.assume(d >= 0)
        c = cellobj(shape, macro)
        return [c, SInt(d)] + ([SCHEME()] if scheme else []), {}, (c, d, scheme, rec)
    return setup


def simplex_ens(it, ctx, r):
    c, d, scheme, rec = ctx
    e = it.eng
    if not hasattr(rec, "args"):
        return e.prove(z3.BoolVal(False), "the library's rule for this kind of cell")
    e.equal(rec.args["ref_el"], c, "rule on the cell requested")
    e.prove(zi(e.force(rec.args["degree"])) >= d, "exact to the requested degree")
    if not scheme:
        e.equal(rec.args.get("scheme", "default"), "default", "default scheme")
    else:
        e.equal(rec.args.get("scheme", "default"), SCHEME(), "the scheme requested")
    orientations(it, r, rec.o)
    ps = rule_pairs(it, r, rec.X, rec.W)
    e.prove(z3.BoolVal(it.type_of(ps) is PointSet), "plain point set")
    e.equal(it.getattr(r, "ref_el"), c, "reference cell")


for nm, shape, macro in (("point", POINT, False), ("triangle", TRIANGLE, False), ("tetrahedron", TETRAHEDRON, False), ("split interval", LINE, True), ("split triangle", TRIANGLE, True), ("split tetrahedron", TETRAHEDRON, True)):
    for scheme in (False, True):
        rec = Recorded()
        C(f"make_quadrature[{nm}{', any scheme' if scheme else ''}, every degree]", simplex_setup(rec, shape, macro, scheme), make_quadrature, simplex_ens, models={**gl_models(Recorded()), **scheme_models(rec)})


for nm, shape in (("interval", LINE), ("point", POINT), ("triangle", TRIANGLE), ("tetrahedron", TETRAHEDRON)):
    def neg_setup(it, shape=shape):
        d = z3.Int("degree")
        it.eng.assume(d < 0)
        return [cellobj(shape), SInt(d)], {}, None
    rec = Recorded()
    C(f"make_quadrature[{nm}] rejects negative degrees", neg_setup, make_quadrature, must_raise, raises=raises(ValueError), models={**gl_models(rec), **scheme_models(rec)})


# ---- product cells: recursion through the function's own contract (a rule for the cell, degree and scheme)
def factor_rule(it, c, d, scheme):
    """what make_quadrature returns for a factor: an abstract rule determined by cell, degree and scheme"""
    sc = z3.Const("scheme_default", U) if scheme == "default" else z3.Const("scheme_given", U)
    key = [c.params[0], d, sc]
    f = lambda nm: z3.Function(nm, *[k.sort() for k in key], U)(*key)
    def ps(it2, o):
        return Obj("fps", (f("point_set_of"),), Schema("fps", {}, cls=(AbstractPointSet,)))
    def w(it2, o):
        return gm.tensor("weight_of", [f("rule_of")], Seq([], "tuple"))
    def om(it2, o):
        return (App("orient", (SU(f("rule_of")),)),)
    return Obj("frule", tuple(key), Schema("frule", {"point_set": ps, "weight_expression": w, "_intrinsic_orientation_permutation_map_tuple": om}, cls=(AbstractQuadratureRule,)))


def recursive(top):
    """contract of make_quadrature used at its recursive calls"""
    def m(it, a, kw):
        v = dict(zip(["ref_el", "degree", "scheme"], a)); v.update(kw)
        c = deref(v["ref_el"])
        if not (isinstance(c, Obj) and c.name == "factor"):
            raise Unsupported(f"recursive call on {c!r}")
        return factor_rule(it, c, zi(it.eng.force(deref(v["degree"]))), it.eng.force(v.get("scheme", "default")))
    return m


class Outer:
    """the outermost call runs the body; the inner ones use the contract"""


@driver
def outer(it, args, kw):
    f = make_quadrature
    it.contracts = {k: v for k, v in it.contracts.items() if k is not f}
    inner = recursive(None)
    started = []
    def disp(it2, a, k):
        if not started:
            started.append(1)
            return it2.call_func(it2.wrap_func(f), a, k)
        return inner(it2, a, k)
    it.contracts = dict(it.contracts)
    it.contracts[f] = disp
    return it.call(f, args, kw)


FAC = Schema("factor", {}, cls=(Cell,))


def prod_setup(n, kind, scheme):
    def setup(it):
        N = z3.Int("n") if n is None else z3.IntVal(n)
        it.eng.assume(N >= 1)
        cells = family(lambda i: Obj("factor", (z3.Function("fcell", I, U)(i),), FAC), N) if n is None else tuple(Obj("factor", (z3.Const(f"fcell{i}", U),), FAC) for i in range(n))
        c = cellobj(TENSORPRODUCT, cells=lambda it2, o: cells)
        if kind == "single":
            d = z3.Int("degree")
            deg, per = SInt(d), (lambda i: d)
        else:
            f = z3.Function("deg", I, I)
            per = f
            k = fresh_int()
            deg = it.mk(Seq([Flat(k, Dom(n=N), Seq([Elem(SInt(f(k)))]))], "tuple"), "tuple") if n is None else tuple(SInt(f(z3.IntVal(i))) for i in range(n))
            if kind == "list":
                deg = it.eng.new_list(as_seq(deg).as_kind("list"))
        return [c, deg] + ([SCHEME()] if scheme else []), {}, (c, cells, N, per, scheme)
    return setup


def prod_ens(it, ctx, r):
    c, cells, N, per, scheme = ctx
    e = it.eng
    e.prove(z3.BoolVal(it.type_of(r) is TensorProductQuadratureRule), "a tensor-product rule")
    sc = SCHEME() if scheme else "default"
    want = it.map_seq(lambda p: p, family(lambda i: factor_rule(it, Obj("factor", (z3.Function("fcell", I, U)(i),), FAC), per(i), sc), N)) if not isinstance(cells, tuple) else \
        tuple(factor_rule(it, x, per(z3.IntVal(i)), sc) for i, x in enumerate(cells))
    e.equal(it.getattr(r, "factors"), it.mk(want, "tuple") if isinstance(want, Seq) else want, "the factors' rules for their own degrees, in factor order")
    e.equal(it.getattr(r, "ref_el"), c, "reference cell")


for n in (None, 1, 2, 3):
    for kind in ("single", "tuple", "list"):
        for scheme in (False, True):
            C(f"make_quadrature[{'any number of' if n is None else n} factors, {kind} degree{', any scheme' if scheme else ''}]", prod_setup(n, kind, scheme), outer, prod_ens)


def badn_setup(it):
    N, M = z3.Int("n"), z3.Int("m")
    it.eng.assume(z3.And(N >= 1, M >= 0, M != N))
    cells = family(lambda i: Obj("factor", (z3.Function("fcell", I, U)(i),), FAC), N)
    k = fresh_int()
    return [cellobj(TENSORPRODUCT, cells=lambda it2, o: cells), it.mk(Seq([Flat(k, Dom(n=M), Seq([Elem(SInt(z3.Function("deg", I, I)(k)))]))], "tuple"), "tuple")], {}, None


C("make_quadrature[product cell] rejects another number of degrees", badn_setup, outer, must_raise, raises=raises(AssertionError, ValueError))


def quad_setup(kind):
    def setup(it):
        p = Obj("factor", (z3.Const("product_cell", U),), FAC)
        c = cellobj(QUADRILATERAL, product=lambda it2, o: p)
        return [c, SInt(z3.Int("degree"))] + ([SCHEME()] if kind else []), {}, (p, kind)
    return setup


def quad_ens(it, ctx, r):
    p, kind = ctx
    it.eng.equal(r, factor_rule(it, p, z3.Int("degree"), SCHEME() if kind else "default"), "the rule of the product cell")


for kind in (False, True):
    C(f"make_quadrature[quadrilateral{', any scheme' if kind else ''}]", quad_setup(kind), outer, quad_ens)


# ---- rules
def qr_setup(it):
    n, m = z3.Int("n"), z3.Int("m")
    it.eng.assume(z3.And(n >= 0, m >= 0, n != m))
    return [it.construct(PointSet, [NArr.opaque("X", [], [n, 2])], {}), NArr.opaque("W", [], [m])], {}, None


@driver
def qr_build(it, args, kw):
    return it.construct(QuadratureRule, args, kw)


C("QuadratureRule rejects unequal numbers of points and weights", qr_setup, qr_build, must_raise, raises=raises(AssertionError))


def qr2_setup(it):
    n = z3.Int("n")
    it.eng.assume(n >= 0)
    X, W = NArr.opaque("X", [], [n, 2]), NArr.opaque("W", [], [n])
    return [it.construct(PointSet, [X], {}), W], {}, (X, W)


C("QuadratureRule pairs weights with points", qr2_setup, qr_build, lambda it, ctx, r: rule_pairs(it, r, *ctx) and None)


def tp_setup(n):
    def setup(it):
        sc = z3.Const("sc", U)
        def one(i):
            return Obj("frule", (z3.Function("fr", I, U)(i),), Schema("frule", {
                "point_set": lambda it2, o: Obj("fps", o.params, Schema("fps", {}, cls=(AbstractPointSet,))),
                "weight_expression": lambda it2, o: gm.tensor("weight_of", o.params, Seq([], "tuple")),
                "_intrinsic_orientation_permutation_map_tuple": lambda it2, o: (App("orient", (SU(o.params[0]),)),)}, cls=(AbstractQuadratureRule,)))
        N = z3.Int("n") if n is None else z3.IntVal(n)
        it.eng.assume(N >= 1)
        fs = family(one, N) if n is None else [one(z3.IntVal(i)) for i in range(n)]
        return [fs if n is None else it.eng.new_list(seq_of(fs, "list"))], {}, (one, N, n)
    return setup


@driver
def tp_build(it, args, kw):
    r = it.construct(TensorProductQuadratureRule, args, kw)
    return r


def tp_ens(it, ctx, r):
    one, N, n = ctx
    e = it.eng
    ps = it.getattr(r, "point_set")
    e.prove(z3.BoolVal(it.type_of(ps) is TensorPointSet), "tensor point set")
    pf = lambda i: Obj("fps", (z3.Function("fr", I, U)(i),), Schema("fps", {}, cls=(AbstractPointSet,)))
    e.equal(it.getattr(ps, "factors"), it.mk(family(pf, N), "tuple") if n is None else tuple(pf(z3.IntVal(i)) for i in range(n)), "the factors' points in factor order")
    w = gm.as_node(it, it.getattr(r, "weight_expression"))
    wf = lambda i: z3.Function("weight_of", U, z3.RealSort())(z3.Function("fr", I, U)(i))
    got = gm.den(it, w, [])
    if n is None:
        k = fresh_int()
        want = e.sum_over(k, Dom(n=N), wf(k), "PROD")
    else:
        want = z3.RealVal(1)
        for i in range(n):
            want = want * wf(z3.IntVal(i))
    e.prove(got == want, "the weight is the product of the factors' weights")


for n in (None, 1, 2, 3):
    C(f"TensorProductQuadratureRule[{'any number of' if n is None else n} factors]", tp_setup(n), tp_build, tp_ens)


# ---- lemma: products of exact rules are exact (the sum over product points of product weights times a product function)
def lemma_setup(ns):
    def setup(it):
        return [], {}, ns
    return setup


@driver
def nothing(it, args, kw):
    return None


def lemma_ens(it, ns, r):
    """sum_{q1..qk} (w1 .. wk)(f1(x1) .. fk(xk)) = prod_i sum_qi wi fi(xi): Fubini for the product rule"""
    ws, fs, ix = [], [], []
    for i in range(ns):
        n = z3.Int(f"n{i}")
        it.eng.assume(n >= 1)
        g = gm.new_index(it, SInt(n))
        ix.append(g)
        ws.append(gm.indexed(it, gm.tensor(f"w{i}", [], Seq([Elem(SInt(n))], "tuple")), Seq([Elem(g)], "tuple")))
        fs.append(gm.indexed(it, gm.tensor(f"f{i}", [], Seq([Elem(SInt(n))], "tuple")), Seq([Elem(g)], "tuple")))
    whole = None
    for w in ws + fs:
        whole = w if whole is None else gm.scalar_op(it, "prod", whole, w)
    whole = gm.index_sum(it, whole, Seq([Elem(g) for g in ix], "tuple"))
    parts = None
    for w, f, g in zip(ws, fs, ix):
        s = gm.index_sum(it, gm.scalar_op(it, "prod", w, f), Seq([Elem(g)], "tuple"))
        parts = s if parts is None else gm.scalar_op(it, "prod", parts, s)
    it.eng.equal(whole, parts, "the product rule integrates products of functions to the product of the factors' integrals")


for ns in (1, 2, 3):
    C(f"lemma: product rules of {ns} factors factorise", lemma_setup(ns), nothing, lemma_ens)


# ---- orientation maps: one per axis
def orient_setup(counts):
    def setup(it):
        maps = [tuple(ornt(z3.IntVal(i), z3.IntVal(j)) for j in range(k)) for i, k in enumerate(counts)]
        fs = [Obj("frule", (z3.IntVal(i),), Schema("frule", {
            "point_set": lambda it2, o: Obj("fps", o.params, Schema("fps", {}, cls=(AbstractPointSet,))),
            "weight_expression": lambda it2, o: gm.tensor("weight_of", o.params, Seq([], "tuple")),
            "_intrinsic_orientation_permutation_map_tuple": lambda it2, o, m=m: m}, cls=(AbstractQuadratureRule,))) for i, m in enumerate(maps)]
        cell = Obj("ornt_cell", (), Schema("ornt_cell", {"extrinsic_orientation_permutation_map": lambda it2, o: App("extrinsic orientations", ())}, cls=(Cell,)))
        return [it.eng.new_list(seq_of(fs, "list"))], {"ref_el": cell}, maps
    return setup


@driver
def both_maps(it, args, kw):
    r = it.construct(TensorProductQuadratureRule, args, kw)
    return it.getattr(r, "intrinsic_orientation_permutation_map_tuple"), it.getattr(r, "extrinsic_orientation_permutation_map")


for n in (1, 2, 3):
    for counts in itertools.product((1, 2, 3), repeat=n):
        C(f"orientation maps of a product of rules with {counts} axes", orient_setup(counts), both_maps,
          lambda it, maps, r: it.eng.equal(r, (tuple(x for m in maps for x in m), App("extrinsic orientations", ())), "one map per axis, factor by factor; exchanges of axes are those of the cell"),
          bounded="number of factors and axes")


def own_maps(given):
    def setup(it):
        args, kw, ctx = qr2_setup(it)
        return args, dict(kw, **given), None
    return setup


def own(which):
    @driver
    def run(it, args, kw):
        return it.getattr(it.construct(QuadratureRule, args, kw), which)
    return run


M2 = (ornt(z3.IntVal(0), z3.IntVal(1)), ornt(z3.IntVal(0), z3.IntVal(2)))
C("orientation maps of a rule are those given", own_maps({"io_ornt_map_tuple": M2}), own("intrinsic_orientation_permutation_map_tuple"), lambda it, ctx, r: it.eng.equal(r, M2, "maps"))
for nm, given in (("none given", {}), ("one of two missing", {"io_ornt_map_tuple": (M2[0], None)})):
    C(f"orientation maps of a rule, {nm}: rejected", own_maps(given), own("intrinsic_orientation_permutation_map_tuple"), must_raise, raises=raises(ValueError))
C("exchanges of axes of a rule without a cell: rejected", own_maps({}), own("extrinsic_orientation_permutation_map"), must_raise, raises=raises(ValueError))
