"""P21: run-time tabulated and quadrature elements."""
from .evals import *
import numpy
import FIAT
import gem
from FIAT.reference_element import LINE
from finat import quadrature_element, runtime_tabulated
from finat.quadrature import AbstractQuadratureRule
from finat.quadrature_element import QuadratureElement
from finat.runtime_tabulated import RuntimeTabulated
from finat.point_set import AbstractPointSet, UnknownPointSet, PointSet, TensorPointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet
from pyvc.ndarray import NArr
from pyvc.engine import zr, zi

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


# ---- run-time tabulated elements
COMBOS = [(c, r) for c in (True, False) for r in (None, "+", "-")]


def rt_cell():
    return Obj("cell", (), Schema("cell", {"get_shape": method(lambda it, o: LINE), "get_spatial_dimension": method(lambda it, o: 1)}))


def rt_setup(k, order):
    def setup(it):
        variant = SStr([App("variant", ())])
        deg, shift = z3.Int("degree"), z3.Int("shift")
        it.eng.assume(z3.And(deg >= 0, shift >= 0))
        ps, ix = some_points(it, k)
        return [variant, SInt(deg), SInt(shift), order, ps], {}, (variant, deg, shift, order, ix)
    return setup


def some_points(it, k, cls=(AbstractPointSet,)):
    ix = []
    for j in range(k):
        n = z3.Int(f"q{j}_n")
        it.eng.assume(n >= 1)
        g = gm.GIndex(f"q{j}", ())
        gm.store_extent(it, g, SInt(n))
        ix.append(g)
    # the array of points: as many as the product of the extents of the indices says
    n = z3.Int("q_points")
    size = 1
    for g in ix:
        size = size * zi(gm.extent_of(it, g))
    it.eng.assume(n == size)
    points = lambda it2, o: it2.mk(flat(n, lambda k: [App("point", (SInt(k),), {})]), "iter")
    return Obj("ps", (), Schema("ps", {"indices": lambda it2, o: tuple(ix), "points": points}, cls=cls)), ix


@driver
def rt_all(it, args, kw):
    """the tables of every restriction and continuity, for the same variant, degree and offset"""
    variant, deg, shift, order, ps = args
    out = {}
    for c, r in COMBOS:
        e = it.construct(RuntimeTabulated, [rt_cell(), deg], dict(variant=variant, shift_axes=shift, restriction=r, continuous=c))
        out[c, r] = it.call(it.getattr(e, "basis_evaluation"), [order, ps], {})
    return tuple(out.items())


def variables(g, seen=None):
    if isinstance(g, gm.G):
        if g.kind == "tensor":
            return [g]
        return [v for a in g.args for v in variables(a)]
    if isinstance(g, (tuple, list)):
        return [v for a in g for v in variables(a)]
    return []


def fields_of(name):
    """'prefix <variant> _ f1 _ f2 ...' -> (prefix, [f1, f2, ...]): fields are lists of literal text and integer tokens"""
    parts = list(name.parts)
    pos = [i for i, p in enumerate(parts) if isinstance(p, App) and p.fn == "variant"]
    if len(pos) != 1:
        return None
    prefix = parts[:pos[0]]
    if any(not isinstance(p, str) for p in prefix):
        return None
    fields, cur = [], []
    for p in parts[pos[0] + 1:]:
        if isinstance(p, str):
            bits = p.split("_")
            cur += [bits[0]] if bits[0] else []
            for b in bits[1:]:
                fields.append(cur)
                cur = [b] if b else []
        else:
            cur.append(p)
    fields.append(cur)
    return "".join(prefix), fields


def rt_ens(it, ctx, r):
    variant, deg, shift, order, ix = ctx
    e = it.eng
    names = []
    for (cont, restr), tables in r:
        tables = e.force(deref(tables))
        items = e.norm(tables.items).items() if isinstance(tables, PDict) else list(tables.items())
        e.equal(tuple(k for k, _ in items), tuple((a,) for a in range(order + 1)), "every derivative up to the order")
        for al, t in items:
            t = gm.as_node(it, t)
            vs = variables(t)
            if len(vs) != 1:
                return e.fail("one run-time table per derivative", f"{vs}")
            v, = vs
            ext = [gm.extent_of(it, i) for i in ix]
            e.equal(it.mk(e.norm(v.shape), "tuple"), tuple(ext) + (SInt(deg + 1),), "one table entry per point and basis function")
            b = gm.new_index(it, SInt(deg + 1))
            e.equal(t, gm.component_tensor(it, gm.indexed(it, v, Seq([Elem(i) for i in ix] + [Elem(b)], "tuple")), Seq([Elem(b)], "tuple")), "table read at the points, then the basis function")
            nm = v.args[0]
            names.append(((cont, restr, e.force(as_seq_(as_seq(al)).items()[0])), nm if isinstance(nm, SStr) else SStr([nm])))
    # injective naming: after the variant every name is a fixed number of fields separated by underscores, none of which can hold
    # an underscore; so fields are recovered from the right and the variant is the rest
    dec = [(k, fields_of(n)) for k, n in names]
    for k, d in dec:
        if d is None:
            return e.fail("the variant appears once in the name, after fixed text", str(dict(names)))
    (k0, (p0, f0)) = dec[0]
    for k, (p, f) in dec:
        ok = p == p0 and len(f) == len(f0) and not f[0]
        (e.ok if ok else lambda n: e.fail(n, f"{names}"))("names have the same prefix and number of fields")
    where = {}
    for k, (p, f) in dec:
        for i, x in enumerate(f):
            toks = [t for t in x if not isinstance(t, str)]
            if not toks:
                continue
            if len(toks) > 1 or not isinstance(toks[0], App) or toks[0].fn != "str":
                return e.fail("a field holds at most one parameter", f"{x}")
            t = toks[0].args[0].e
            nm = next((n for n, v in (("degree", deg), ("shift", shift)) if z3.is_int_value(z3.simplify(t - v))), None)
            where.setdefault((nm, k), i)
    for nm in ("degree", "shift"):
        pos = {where.get((nm, k)) for k, _ in dec}
        (e.ok if len(pos) == 1 and None not in pos else lambda n: e.fail(n, f"{names}"))(f"{nm} has its own field in every name")
        if len(pos) == 1 and None not in pos:
            i, = pos
            txt = {tuple(t if isinstance(t, str) else "#" for t in f[i]) for _, (_, f) in dec}
            (e.ok if len(txt) == 1 else lambda n: e.fail(n, f"{txt}"))(f"the field of {nm} is spelled alike in every name")
    # the remaining fields are fixed text: distinct for distinct (continuity, restriction, derivative)
    lits = {}
    for k, (p, f) in dec:
        key = tuple(tuple(x) if all(isinstance(t, str) for t in x) else "#" for x in f)
        (e.ok if key not in lits else lambda n: e.fail(n, f"{k} and {lits[key]}: {names}"))("distinct derivative, continuity and restriction have distinct names")
        lits[key] = k


for k in (0, 1, 2):
    for order in (0, 1, 2, 3, 12):
        C(f"RuntimeTabulated.basis_evaluation[{k} point indices, order {order}]", rt_setup(k, order), rt_all, rt_ens, bounded="derivative order")


@driver
def rt_build(it, args, kw):
    return it.construct(RuntimeTabulated, args, kw)


def rt_meta(it, ctx, r):
    deg, c = ctx
    e = it.eng
    e.equal(it.call(it.getattr(r, "space_dimension"), [], {}), SInt(deg + 1), "space dimension")
    e.equal(it.getattr(r, "index_shape"), (SInt(deg + 1),), "index shape")
    e.equal(it.getattr(r, "value_shape"), (), "value shape")
    e.equal(it.getattr(r, "degree"), SInt(deg), "degree")
    e.equal(it.getattr(r, "formdegree"), 0 if c else 1, "form degree")
    e.equal(it.getattr(r, "mapping"), "affine", "mapping")


for c in (True, False):
    C(f"RuntimeTabulated[continuous={c}] metadata", lambda it, c=c: (it.eng.assume(z3.Int("degree") >= 0), ([rt_cell(), SInt(z3.Int("degree"))], dict(variant="v", continuous=c), (z3.Int("degree"), c)))[1], rt_build, rt_meta)


# ---- quadrature elements: any rule with at least one point index (any number of indices)
def rule_setup(it, k, dim=2):
    n = None
    if k is None:
        n = z3.Int("nidx")
        it.eng.assume(n >= 1)
        ext = z3.Function("q_n", I, I)
        x = z3.Int("x")
        it.eng.fact(z3.ForAll([x], ext(x) >= 1, patterns=[ext(x)]))
        j = fresh_int("j")
        g = gm.GIndex("q", (j,))
        gm.store_extent(it, g, SInt(ext(j)))
        ix = Seq([Flat(j, Dom(n=n), Seq([Elem(g)]))], "tuple")
    else:
        _, l = some_points(it, k)
        ix = Seq([Elem(g) for g in l], "tuple")
    AEQ = z3.Bool("points_agree")
    def almost(it2, o):
        return Model(lambda it3, a, kw: SBool(AEQ) if deref(a[0]) is other else (_ for _ in ()).throw(Unsupported("compared with another point set")), "almost_equal")
    jx = None
    own = Obj("ps", (), Schema("ps", {"indices": lambda it2, o: it.mk(ix, "tuple"), "dimension": lambda it2, o: dim, "almost_equal": almost}, cls=(AbstractPointSet,)))
    # the point set passed in: other indices of the same extents
    piece = ix.pieces
    oth = []
    for p in piece:
        if isinstance(p, Elem):
            h = gm.GIndex("other_" + p.v.id, p.v.ps)
            gm.store_extent(it, h, gm.extent_of(it, p.v))
            oth.append(Elem(h))
        else:
            g0 = p.body.pieces[0].v
            h = gm.GIndex("other_" + g0.id, g0.ps)
            gm.store_extent(it, h, gm.extent_of(it, g0))
            oth.append(Flat(p.var, p.dom, Seq([Elem(h)])))
    ox = Seq(oth, "tuple")
    other = Obj("given", (), Schema("given", {"indices": lambda it2, o: it.mk(ox, "tuple"), "dimension": lambda it2, o: dim}, cls=(AbstractPointSet,)))
    rule = Obj("rule", (), Schema("rule", {"point_set": lambda it2, o: own}, cls=(AbstractQuadratureRule,)))
    top = z3.Const("cell_dim", U)
    cell = Obj("cell", (), Schema("cell", {"get_spatial_dimension": method(lambda it2, o: dim), "get_dimension": method(lambda it2, o: SU(top)),
                                           "get_shape": method(lambda it2, o: SInt(z3.Int("cell_shape")))}, cls=(FIAT.reference_element.Cell,)))
    el = it.construct(QuadratureElement, [cell, rule], {})
    return el, ix, ox, own, other, AEQ, top


def delta_spec(it, ix):
    """basis function r at the point q: one if q = r, zero otherwise"""
    shape = gm.shape_of_indices(it, ix)
    sh = it.eng.norm(shape)
    b = index_tuple(it, shape)
    def at(slots):
        r = z3.RealVal(1)
        for p, s in zip(ix.pieces, slots):
            t = gm.lookup(it, (), gm.index_key(it, p))
            r = r * z3.If(t == s.term, z3.RealVal(1), z3.RealVal(0))
        return r
    return gm.Fun(sh, at)


def qe_setup(k, ent):
    def setup(it):
        el, ix, ox, own, other, aeq, top = rule_setup(it, k)
        it.eng.assume(aeq)
        entity = None if ent is None else (SU(top), 0)
        return [el, 0, other, entity], {}, (el, ix, ox)
    return setup


def qe_ens(it, ctx, r):
    el, ix, ox = ctx
    it.eng.equal(it.getattr(el, "index_shape"), it.mk(gm.shape_of_indices(it, ix), "tuple"), "one basis function per point")
    items = it.eng.norm(it.eng.force(deref(r)).items).items() if isinstance(it.eng.force(deref(r)), PDict) else list(it.eng.force(deref(r)).items())
    it.eng.equal(tuple(k for k, _ in items), ((0, 0),), "values only")
    it.eng.equal(items[0][1], delta_spec(it, ox), "one at the own point, zero at the others")


for k in (None, 1, 2, 3):
    kn = "any number of" if k is None else k
    for ent in (None, "cell"):
        C(f"QuadratureElement.basis_evaluation[{kn} point indices, entity {ent}]", qe_setup(k, ent), meth("basis_evaluation"), qe_ens)


# the dual basis on each kind of point set: the rule's points, with point indices that no other call shares (the same element
# may be a factor of a product more than once)
KINDS = {"points on a line": (PointSet, 1), "points in the plane": (PointSet, 2), "Gauss-Legendre points": (GaussLegendrePointSet, 1), "Gauss-Lobatto-Legendre points": (GaussLobattoLegendrePointSet, 1),
         "unknown points": (UnknownPointSet, 2), "a product of two lines": (1, 1), "a product of plane and line": (2, 1), "a product of three lines": (1, 1, 1), "a product of a product and a line": ((1, 2), 1)}


def kind_set(it, kind, nm="X"):
    """(point set, coordinates, leaves): leaves (number of points, array of the points) in order"""
    if isinstance(kind[0], type):
        n = z3.Int(f"{nm}_n")
        it.eng.assume(n >= 1)
        if kind[0] is UnknownPointSet:
            v = it.call(gem.Variable, [f"rt_:{nm}", (SInt(n), kind[1])], {})
            arr = NArr([n, kind[1]], lambda it2, ix: SReal(gm.den(it2, v, [gm.Slot("i", ix[0]), gm.Slot("i", ix[1])])))
            return it.construct(kind[0], [v], {}), kind[1], [(n, arr)]
        X = NArr.opaque(nm, [], [n, kind[1]])
        return it.construct(kind[0], [X], {}), kind[1], [(n, X)]
    parts = [kind_set(it, f if isinstance(f, tuple) else (PointSet, f), f"{nm}{j}") for j, f in enumerate(kind)]
    return it.construct(TensorPointSet, [[p[0] for p in parts]], {}), sum(p[1] for p in parts), [l for p in parts for l in p[2]]


def fresh_setup(kind):
    def setup(it):
        ps, d, leaves = kind_set(it, kind)
        rule = Obj("rule", (), Schema("rule", {"point_set": lambda it2, o: ps}, cls=(AbstractQuadratureRule,)))
        cell = Obj("cell", (), Schema("cell", {"get_spatial_dimension": method(lambda it2, o: d), "get_dimension": method(lambda it2, o: SU(z3.Const("cell_dim", U))),
                                               "get_shape": method(lambda it2, o: SInt(z3.Int("cell_shape")))}, cls=(FIAT.reference_element.Cell,)))
        return [it.construct(QuadratureElement, [cell, rule], {})], {}, (ps, d, leaves)
    return setup


@driver
def twice(it, args, kw):
    el, = args
    return it.getattr(el, "dual_basis"), it.getattr(el, "dual_basis"), it.getattr(el, "index_shape")


def indices_of(it, ps):
    return list(as_seq_(as_seq(it.eng.force(deref(it.getattr(ps, "indices"))))).items())


def fresh_ens(it, ctx, r):
    ps, d, leaves = ctx
    e = it.eng
    one, two, shape = r
    seen = []
    ext = tuple(SInt(n) for n, _ in leaves)
    e.equal(shape, ext, "one basis function per point")
    for Q, x in (as_seq_(as_seq(e.force(deref(t)))).items() for t in (one, two)):
        e.prove(z3.BoolVal(it.eng.force(it.call(type, [x], {})) is it.eng.force(it.call(type, [ps], {}))), "dual points are of the rule's kind")
        ix = indices_of(it, x)
        e.equal(tuple(gm.extent_of(it, g) for g in ix), ext, "extents of the point indices")
        e.equal(Q, delta_spec(it, Seq([Elem(g) for g in ix], "tuple")), "dual weights: the value at the own point")
        for g in ix:
            e.prove(z3.BoolVal(all(g.id != h.id for h in seen)), "no point index is used twice")
            seen.append(g)
        expr = gm.as_node(it, e.force(it.getattr(x, "expression")))
        q = [gm.lookup(it, (), ("i", g)) for g in ix]
        e.equal(it.mk(e.norm(expr.shape), "tuple"), (d,), "shape of the point expression")
        c = 0
        for (n, arr), t in zip(leaves, q):
            w = int(it.concretize(arr.shape[1])) if not isinstance(arr.shape[1], int) else arr.shape[1]
            for k in range(w):
                e.with_pc([t >= 0, t < n], lambda: e.prove(gm.den(it, expr, [gm.Slot("i", z3.IntVal(c))]) == zr(arr.at(it, [t, z3.IntVal(k)])), f"coordinate {c} of the dual points is the rule's") and True)
                c += 1


for nm, kind in KINDS.items():
    C(f"QuadratureElement.dual_basis[{nm}]", fresh_setup(kind), twice, fresh_ens, **({} if isinstance(kind[0], type) else {"bounded": "number of factors"}))



def rej_setup(what):
    def setup(it):
        el, ix, ox, own, other, aeq, top = rule_setup(it, 1)
        order, entity = 0, None
        if what == "other points":
            it.eng.assume(z3.Not(aeq))
        else:
            it.eng.assume(aeq)
        if what == "derivatives":
            order = z3.Int("order")
            it.eng.assume(order >= 1)
            order = SInt(order)
        if what == "another dimension":
            d = z3.Const("other_dim", U)
            it.eng.assume(d != top)
            entity = (SU(d), SInt(z3.Int("ent")))
        if what == "another entity":
            it.eng.assume(z3.Int("ent") != 0)
            entity = (SU(top), SInt(z3.Int("ent")))
        return [el, order, other, entity], {}, None
    return setup


for what in ("other points", "derivatives", "another dimension", "another entity"):
    C(f"QuadratureElement.basis_evaluation rejects {what}", rej_setup(what), meth("basis_evaluation"), must_raise, raises=raises(ValueError))


def dim_setup(it):
    d, p = z3.Int("cell_d"), z3.Int("points_d")
    it.eng.assume(d != p)
    ps = Obj("ps", (), Schema("ps", {"dimension": lambda it2, o: SInt(p)}))
    rule = Obj("rule", (), Schema("rule", {"point_set": lambda it2, o: ps}, cls=(AbstractQuadratureRule,)))
    cell = Obj("cell", (), Schema("cell", {"get_spatial_dimension": method(lambda it2, o: SInt(d))}))
    return [cell, rule], {}, None


@driver
def qe_build(it, args, kw):
    return it.construct(QuadratureElement, args, kw)


C("QuadratureElement rejects a rule of another dimension", dim_setup, qe_build, must_raise, raises=raises(ValueError))
C("QuadratureElement rejects what is not a rule", lambda it: ([rt_cell(), Obj("ps", (), Schema("ps", {}, cls=(AbstractPointSet,), notcls=(AbstractQuadratureRule,)))], {}, None), qe_build, must_raise, raises=raises(TypeError))


# ---- the reference element's own points and weights
@driver
def fiat_eq(it, args, kw):
    return it.getattr(args[0], "fiat_equivalent")


def fe_model(it, a, kw):
    return App("FIAT.QuadratureElement", tuple(it.eng.force(deref(x)) for x in a))


def fq_setup(it):
    n = z3.Int("N")
    it.eng.assume(n >= 1)
    X, W = NArr.opaque("X", [], [n, 2]), NArr.opaque("W", [], [n])
    ps = Obj("ps", (), Schema("ps", {"dimension": lambda it2, o: 2, "points": lambda it2, o: X}, cls=(AbstractPointSet,), notcls=(UnknownPointSet,)))
    rule = Obj("rule", (), Schema("rule", {"point_set": lambda it2, o: ps, "weights": lambda it2, o: W}, cls=(AbstractQuadratureRule,)))
    cell = Obj("cell", (), Schema("cell", {"get_spatial_dimension": method(lambda it2, o: 2)}))
    return [it.construct(QuadratureElement, [cell, rule], {})], {}, (cell, X, W)


def fq_ens(it, ctx, r):
    cell, X, W = ctx
    it.eng.equal(r.args[0], cell, "cell")
    it.eng.equal(r.args[1], X, "the rule's points")
    it.eng.equal(r.args[2], W, "the rule's weights")


C("QuadratureElement.fiat_equivalent[rule with weights]", fq_setup, fiat_eq, fq_ens, models={FIAT.QuadratureElement: fe_model})


class OneRule(AbstractQuadratureRule):
    """a quadrature rule with attributes in place of properties"""
    point_set = None
    weight_expression = None


def fw_setup(k):
    """a rule that only has an expression of the weights, over k point indices; its value is an array with one axis per index"""
    def setup(it):
        dims = []
        for j in range(k):
            n = z3.Int(f"N{j}")
            it.eng.assume(n >= 1)
            dims.append(n)
        size = 1
        for n in dims:
            size = n * size
        X, W = NArr.opaque("X", [], [size, 2]), NArr.opaque("W", [], dims)
        expr = App("weights", (), {})
        ps = Obj("ps", (), Schema("ps", {"dimension": lambda it2, o: 2, "points": lambda it2, o: X}, cls=(AbstractPointSet,), notcls=(UnknownPointSet,)))

        def value(it2, a, kw):
            s = it2.eng.norm(it2.iter_seq(deref(a[0])))
            if not s.concrete or len(s.items()) != 1 or it2.eng.force(deref(s.items()[0])) is not expr:
                raise Unsupported("evaluation of something other than the weights")
            return it2.mk(Seq([Elem(Obj("value", (), Schema("value", {"arr": lambda it3, o: W})))]), "list")
        rule = new(it, OneRule, point_set=ps, weight_expression=expr)
        cell = Obj("cell", (), Schema("cell", {"get_spatial_dimension": method(lambda it2, o: 2)}))
        it.models[gem.interpreter.evaluate] = value
        return [it.construct(QuadratureElement, [cell, rule], {}), cell, rule], {}, (cell, X, W, dims, size)
    return setup


@driver
def fiat_eq_twice(it, args, kw):
    """the second conversion may start from weights stored by the first one"""
    first = it.getattr(args[0], "fiat_equivalent")
    return first, it.getattr(it.construct(QuadratureElement, args[1:], {}), "fiat_equivalent")


def fw_ens(it, ctx, r):
    cell, X, W, dims, size = ctx
    for e, what in zip(r, ("", ", converted again")):
        it.eng.equal(e.args[0], cell, "cell" + what)
        it.eng.equal(e.args[1], X, "the rule's points" + what)
        w = e.args[2]
        it.eng.prove(w.shape[0] == size if isinstance(w, NArr) and len(w.shape) == 1 else z3.BoolVal(False), "one weight per point" + what)
        ix = [fresh_int(f"at{j}") for j in range(len(dims))]
        at = z3.IntVal(0)
        for x, n in zip(ix, dims):
            it.eng.assume(z3.And(x >= 0, x < n))
            at = at * n + x
        it.eng.equal(w.at(it, [z3.simplify(at)]), W.at(it, ix), "the weight of a point is the value at its position in every factor, last factor fastest" + what)


for k in (1, 2, 3):
    C(f"QuadratureElement.fiat_equivalent[weight expression over {k} point indices]", fw_setup(k), fiat_eq_twice, fw_ens, models={FIAT.QuadratureElement: fe_model})
