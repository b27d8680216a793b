"""Metadata of composite elements as functions of the metadata of the parts."""
from .common import *
from finat import tensor_product, enriched, tensorfiniteelement, cube, discontinuous, mixed, hdivcurl
TPE = tensor_product.TensorProductElement
EE = enriched.EnrichedElement
TFE = tensorfiniteelement.TensorFiniteElement

CONTRACTS = []
META = {"assumptions": ["parts are given by an arbitrary family of element interfaces (uninterpreted metadata) of symbolic length"]}


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


class Parts:
    """family of elements with uninterpreted metadata"""
    def __init__(self, it, name="el", n=None, extra=None):
        self.it, self.name = it, name
        self.n = z3.Int("n_" + name) if n is None else n
        if n is None:
            it.eng.assume(self.n >= 1)
        attrs = {"space_dimension": method(lambda it, o: SInt(self.f("dim", o.params))),
                 "index_shape": lambda it, o: shape_fun(name + "_ish", o.params, it),
                 "value_shape": lambda it, o: shape_fun(name + "_vsh", o.params, it),
                 "degree": lambda it, o: SInt(self.f("degree", o.params)),
                 "mapping": lambda it, o: SU(self.f("mapping", o.params, U)),
                 "complex": lambda it, o: opaque(name + "_complex", *o.params),
                 "cell": lambda it, o: opaque(name + "_cell", *o.params),
                 "formdegree": lambda it, o: self.formdegree(o.params)}
        attrs.update(extra or {})
        self.schema = Schema(name, attrs, notcls=(EE,))
    def f(self, nm, ps, ret=I):
        return z3.Function(f"{self.name}_{nm}", *[p.sort() for p in ps], ret)(*ps)
    def formdegree(self, ps):
        k = self.f("fkind", ps)
        return Choice([(k == 0, None), (k == 1, (SInt(self.f("fd0", ps)), SInt(self.f("fd1", ps)))), (z3.BoolVal(True), SInt(self.f("fd", ps)))])
    def obj(self, *ps):
        return Obj(self.name, ps, self.schema)
    def fam(self):
        return family(self.obj, self.n)
    def axioms(self):
        eng = self.it.eng
        x = z3.Int("x")
        d = z3.Function(self.name + "_dim", I, I)
        eng.fact(z3.ForAll([x], d(x) >= 0, patterns=[d(x)]))


# ---------------------------------------------------------------- tensor products
def _tpe(it):
    p = Parts(it, "fac")
    p.axioms()
    return [new(it, TPE, factors=p.fam())], {}, p


def _ens_tpe_dim(it, p, r):
    k = fresh_int()
    it.eng.equal(r, wrapz(it.eng.sum_over(k, Dom(n=p.n), p.f("dim", [k]), "PROD")), "product of the factors' dimensions")


def _ens_tpe_ish(it, p, r):
    i = fresh_int()
    it.eng.equal(r, Seq([Flat(i, Dom(n=p.n), shape_fun("fac_ish", [i], it))], "tuple"), "index shapes concatenated in factor order")


C("TensorProductElement.space_dimension", _tpe, meth("space_dimension"), _ens_tpe_dim)
C("TensorProductElement.index_shape", _tpe, attr("index_shape"), _ens_tpe_ish)
C("TensorProductElement.degree", _tpe, attr("degree"),
  lambda it, p, r: it.eng.equal(r, flat(p.n, lambda k: [SInt(p.f("degree", [k]))], "tuple"), "one degree per factor"))


def _ens_tpe_fd(it, p, r):
    eng = it.eng
    x = z3.Int("x")
    kind = z3.Function("fac_fkind", I, I)
    plain = z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p.n), z3.And(kind(x) != 0, kind(x) != 1)))
    if deref(r) is None:
        eng.prove(z3.Not(plain), "undefined only when a factor's form degree is undefined or double")
    else:
        eng.prove(plain, "defined only when all factors have a form degree")
        k = fresh_int()
        eng.equal(r, wrapz(eng.sum_over(k, Dom(n=p.n), p.f("fd", [k]))), "sum of the factors' form degrees")


C("TensorProductElement.formdegree", _tpe, attr("formdegree"), _ens_tpe_fd)


# ---------------------------------------------------------------- enriched
def _ee(it):
    p = Parts(it, "el")
    p.axioms()
    return [new(it, EE, elements=p.fam())], {}, p


def _ens_ee_dim(it, p, r):
    k = fresh_int()
    it.eng.equal(r, wrapz(it.eng.sum_over(k, Dom(n=p.n), p.f("dim", [k]))), "sum of the parts' dimensions")


C("EnrichedElement.space_dimension", _ee, meth("space_dimension"), _ens_ee_dim)
C("EnrichedElement.index_shape", _ee, attr("index_shape"),
  lambda it, p, r: it.eng.equal(r, (wrapz(it.eng.sum_over(fresh_int(), Dom(n=p.n), p.f("dim", [fresh_int()])) if False else
                                          (lambda k: it.eng.sum_over(k, Dom(n=p.n), p.f("dim", [k])))(fresh_int())),), "one axis of all basis functions"))


def _ens_ee_map(it, p, r):
    eng = it.eng
    x, y = z3.Ints("x y")
    m = z3.Function("el_mapping", I, U)
    agree = z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p.n), m(x) == m(0)))
    if deref(r) is None:
        eng.prove(z3.Not(agree), "no mapping only if the parts disagree")
    else:
        eng.prove(agree, "a mapping only if the parts agree")
        eng.equal(r, SU(m(0)), "the common mapping")


C("EnrichedElement.mapping", _ee, attr("mapping"), _ens_ee_map)


def _ens_ee_fd(it, p, r):
    eng = it.eng
    x, y = z3.Ints("x y")
    kind, fd = z3.Function("el_fkind", I, I), z3.Function("el_fd", I, I)
    f0, f1 = z3.Function("el_fd0", I, I), z3.Function("el_fd1", I, I)
    inr = lambda v: z3.And(0 <= v, v < p.n)
    allplain = z3.ForAll([x], z3.Implies(inr(x), z3.And(kind(x) != 0, kind(x) != 1)))
    alldouble = z3.ForAll([x], z3.Implies(inr(x), z3.And(kind(x) == 1, f0(x) == f0(0), f1(x) == f1(0))))
    r = eng.force(deref(r))
    if r is None:
        eng.prove(z3.And(z3.Not(allplain), z3.Not(alldouble)), "undefined only if some part's is undefined or double forms are mixed")
    elif it.isinstance(r, tuple) is True:
        eng.prove(alldouble, "a double form only if all parts are that double form")
        eng.equal(r, (SInt(f0(z3.IntVal(0))), SInt(f1(z3.IntVal(0)))), "the common double form")
    else:
        eng.prove(allplain, "defined only if every part has a form degree")
        eng.prove(z3.ForAll([x], z3.Implies(inr(x), fd(x) <= zi(r))), "at least every part's form degree")
        eng.prove(z3.Or(fd(z3.IntVal(0)) == zi(r), z3.Exists([x], z3.And(inr(x), fd(x) == zi(r)))), "attained by a part")


C("EnrichedElement.formdegree", _ee, attr("formdegree"), _ens_ee_fd)


# ---------------------------------------------------------------- vector and tensor valued
def _tfe(tr):
    def setup(it):
        p = Parts(it, "base", n=z3.IntVal(1))
        shape = shape_fun("shape", [], it)
        it.eng.assume(z3.Const("shape_rank", I) >= 1)
        return [it.construct(TFE, [p.obj(), shape], {'transpose': tr})], {}, (p, shape)
    return setup


for tr in (False, True):
    def _ens_ish(it, ctx, r, tr=tr):
        p, shape = ctx
        b = shape_fun("base_ish", [], it)
        it.eng.equal(r, (shape + b if tr else b + shape).as_kind("tuple"), "index shape " + ("components first" if tr else "basis first"))
    def _ens_dim(it, ctx, r):
        p, shape = ctx
        it.eng.equal(r, wrapz(prod_of(it, shape_fun("base_ish", [], it)) * prod_of(it, shape)), "product of the index shape")
    C(f"TensorFiniteElement.index_shape[transpose={tr}]", _tfe(tr), attr("index_shape"), _ens_ish)
    C(f"TensorFiniteElement.space_dimension[transpose={tr}]", _tfe(tr), meth("space_dimension"), _ens_dim)
    C(f"TensorFiniteElement.value_shape[transpose={tr}]", _tfe(tr), attr("value_shape"),
      lambda it, ctx, r: it.eng.equal(r, (ctx[1] + shape_fun("base_vsh", [], it)).as_kind("tuple"), "shape before the base's value shape"))


# ---------------------------------------------------------------- delegation
def wrap(it, cls, field, inner):
    if cls is TFE:
        return it.construct(TFE, [inner, ()], {})
    if cls is discontinuous.DiscontinuousElement:
        return it.construct(cls, [inner], {})
    return new(it, cls, **{field: inner})


def _delegate(cls, field, names, methods=(), **extra):
    for nm in names:
        def setup(it):
            s = Schema("inner", {n: (lambda n: lambda it2, o: opaque("inner." + n))(n) for n in names})
            return [wrap(it, cls, field, Obj("inner", (), s))], {}, None
        C(f"{cls.__name__}.{nm}", setup, attr(nm), lambda it, ctx, r, nm=nm: it.eng.equal(r, opaque("inner." + nm), f"{nm} of the wrapped element"))
    for nm in methods:
        def setup(it):
            s = Schema("inner", {n: method((lambda n: lambda it2, o: opaque("inner." + n))(n)) for n in methods})
            return [wrap(it, cls, field, Obj("inner", (), s))], {}, None
        C(f"{cls.__name__}.{nm}()", setup, meth(nm), lambda it, ctx, r, nm=nm: it.eng.equal(r, opaque("inner." + nm), f"{nm} of the wrapped element"))


_delegate(TFE, "_base_element", ["cell", "complex", "degree", "formdegree", "mapping"])
_delegate(discontinuous.DiscontinuousElement, "element", ["cell", "complex", "degree", "index_shape", "value_shape", "mapping", "dual_basis"],
          ["space_dimension", "entity_support_dofs"])
_delegate(mixed.MixedSubElement, "element", ["cell", "complex", "degree", "formdegree", "index_shape", "mapping"],
          ["space_dimension", "entity_dofs", "entity_closure_dofs", "entity_support_dofs"])
_delegate(cube.FlattenedDimensions, "product", ["complex", "formdegree", "index_shape", "value_shape", "mapping", "dual_basis"], ["space_dimension"])
for W in (hdivcurl.HDivElement, hdivcurl.HCurlElement):
    _delegate(W, "wrappee", ["cell", "complex", "degree", "index_shape", "entity_permutations"],
              ["space_dimension", "entity_dofs", "entity_closure_dofs", "entity_support_dofs"])


# ---------------------------------------------------------------- cells of wrappers
def _celled(cls, field):
    def setup(it):
        c = Schema("rcell", {"get_spatial_dimension": method(lambda it, o: SInt(z3.Int("sdim")))})
        s = Schema("inner", {"cell": lambda it, o: Obj("rcell", (), c)})
        return [new(it, cls, **{field: Obj("inner", (), s)})], {}, None
    return setup


SD = SInt(z3.Int("sdim"))
C("DiscontinuousElement.formdegree", _celled(discontinuous.DiscontinuousElement, "element"), attr("formdegree"),
  lambda it, c, r: it.eng.equal(r, SD, "top form degree"))
C("HDivElement.formdegree", _celled(hdivcurl.HDivElement, "wrappee"), attr("formdegree"),
  lambda it, c, r: it.eng.equal(r, SInt(z3.Int("sdim") - 1), "n-1 form"))
C("HCurlElement.formdegree", _celled(hdivcurl.HCurlElement, "wrappee"), attr("formdegree"), lambda it, c, r: it.eng.equal(r, 1, "1-form"))
for W, m in ((hdivcurl.HDivElement, "contravariant piola"), (hdivcurl.HCurlElement, "covariant piola")):
    C(f"{W.__name__}.value_shape", _celled(W, "wrappee"), attr("value_shape"), lambda it, c, r: it.eng.equal(r, (SD,), "vector of the cell's dimension"))
    C(f"{W.__name__}.mapping", _celled(W, "wrappee"), attr("mapping"), lambda it, c, r, m=m: it.eng.equal(r, m, "Piola map"))


def _mse(it):
    s = z3.Int("size")
    return [new(it, mixed.MixedSubElement, size=SInt(s))], {}, s


C("MixedSubElement.value_shape", _mse, attr("value_shape"), lambda it, s, r: it.eng.equal(r, (SInt(s),), "the whole mixed value"))


# flattened degree: reported exactly when the factors agree
def _fd(it):
    p = Parts(it, "fac")
    s = Schema("prod", {"degree": lambda it, o: flat(p.n, lambda k: [SInt(p.f("degree", [k]))], "tuple")})
    return [new(it, cube.FlattenedDimensions, product=Obj("prod", (), s))], {}, p


def _agree(p):
    x = z3.Int("x")
    d = z3.Function("fac_degree", I, I)
    return z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p.n), d(x) == d(0)))


def _ens_fd(it, p, r):
    it.eng.prove(_agree(p), "a degree only if the factors agree")
    it.eng.equal(r, SInt(z3.Function("fac_degree", I, I)(0)), "the common degree")


def _rais_fd(it, p, e):
    it.eng.prove(z3.Not(_agree(p)), "an error only if the factors disagree")


C("FlattenedDimensions.degree", _fd, attr("degree"), _ens_fd, raises=_rais_fd)


# value shape and degree of enriched elements
def _ee_vs(it):
    p = Parts(it, "el", extra={"value_shape": lambda it, o: opaque_shape("el_vs", o.params)})
    return [new(it, EE, elements=p.fam())], {}, p


def opaque_shape(name, ps):
    return SU(z3.Function(name, *[q.sort() for q in ps], U)(*ps))


def _agree_vs(p, nm="el_vs"):
    x = z3.Int("x")
    v = z3.Function(nm, I, U)
    return z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p.n), v(x) == v(0)))


def _ens_vs(it, p, r):
    it.eng.prove(_agree_vs(p), "a value shape only if the parts agree")
    it.eng.equal(r, SU(z3.Function("el_vs", I, U)(0)), "the common value shape")


C("EnrichedElement.value_shape", _ee_vs, attr("value_shape"), _ens_vs,
  raises=lambda it, p, e: it.eng.prove(z3.Not(_agree_vs(p)), "an error only if the parts disagree"))


def _ens_maxdeg(it, p, r):
    x = z3.Int("x")
    d = z3.Function("el_degree", I, I)
    it.eng.prove(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p.n), d(x) <= zi(r))), "at least every part's degree")
    it.eng.prove(z3.Or(d(z3.IntVal(0)) == zi(r), z3.Exists([x], z3.And(0 <= x, x < p.n, d(x) == zi(r)))), "attained")


def _ee2(it):
    r = _ee(it)
    it.eng.assume(r[2].n >= 2)
    return r


C("EnrichedElement.degree[scalar degrees]", _ee2, attr("degree"), _ens_maxdeg)


# nested (tuple) degrees: two parts, tuples of two / three / nested
def _ee_deg(shape):
    def build(t, i):
        if t == 0:
            build.k += 1
            return SInt(z3.Int(f"d{i}_{build.k}"))
        return tuple(build(x, i) for x in t)
    def setup(it):
        objs, trees = [], []
        for i in range(len(shape[0])):
            build.k = 0
            t = build(shape[1], i)
            trees.append(t)
            objs.append(Obj("part", (z3.IntVal(i),), Schema("part", {"degree": (lambda t: lambda it, o: t)(t)})))
        return [new(it, EE, elements=tuple(objs))], {}, trees
    return setup


def _tree(ts):
    if isinstance(ts[0], tuple):
        return tuple(_tree(x) for x in zip(*ts))
    m = zi(ts[0])
    for x in ts[1:]:
        m = z3.If(zi(x) > m, zi(x), m)
    return SInt(m)


for nparts in (2, 3):
    for tree in ((0, 0), (0, 0, 0), ((0, 0), 0)):
        C(f"EnrichedElement.degree[{nparts} parts, degree tree {tree}]".replace("0", "d"), _ee_deg((range(nparts), tree)), attr("degree"),
          lambda it, ts, r: it.eng.equal(r, _tree(ts), "maximum, leaf by leaf"), bounded="number of parts and shape of the degree tree as named")


# mapping of tensor products: at most one non-affine factor (bounded number of factors)
def _tpe_map(n):
    def setup(it):
        p = Parts(it, "fac", n=z3.IntVal(n))
        return [new(it, TPE, factors=tuple(p.obj(z3.IntVal(i)) for i in range(n)))], {}, (p, n)
    return setup


def _ens_tpe_map(it, ctx, r):
    p, n = ctx
    eng = it.eng
    m = [p.f("mapping", [z3.IntVal(i)], U) for i in range(n)]
    aff = eng.to_u("affine")
    k = z3.Sum([z3.If(x == aff, 0, 1) for x in m])
    if r is None:
        eng.prove(k > 1, "no mapping only if two factors are mapped")
    elif r == "affine" if isinstance(r, str) else False:
        eng.prove(k == 0, "affine if all factors are")
    else:
        eng.prove(z3.And(k == 1, z3.Or(*[z3.And(x != aff, eng.to_u(r) == x) for x in m])), "the only mapped factor's mapping")


for n in (1, 2, 3):
    C(f"TensorProductElement.mapping[{n} factors]", _tpe_map(n), attr("mapping"), _ens_tpe_map, bounded=f"number of factors = {n}")


# constructor: the value shape is that of the only non-scalar factor
def _tpe_new(n):
    def setup(it):
        p = Parts(it, "fac", n=z3.IntVal(n))
        return [TPE, tuple(p.obj(z3.IntVal(i)) for i in range(n))], {}, n
    return setup


@driver
def _construct(it, args, kw):
    return it.call(args[0], list(args[1:]), kw)


def _ens_tpe_new(it, n, r):
    eng = it.eng
    ranks = [z3.Function("fac_vsh_rank", I, I)(i) for i in range(n)]
    eng.prove(z3.Sum([z3.If(q == 0, 0, 1) for q in ranks]) <= 1, "accepted only with at most one non-scalar factor")
    vs = it.getattr(r, "value_shape")
    want = Choice([(ranks[i] != 0, shape_fun("fac_vsh", [z3.IntVal(i)], it)) for i in range(n)] + [(z3.BoolVal(True), ())])
    eng.equal(vs, want, "value shape of the non-scalar factor")
    eng.equal(it.getattr(r, "factors"), tuple(Parts(it, "fac", n=z3.IntVal(n)).obj(z3.IntVal(i)) for i in range(n)), "factors in order")


for n in (1, 2, 3):
    C(f"TensorProductElement.__init__[{n} factors]", _tpe_new(n), _construct, _ens_tpe_new, bounded=f"number of factors = {n}",
      raises=lambda it, n, e: it.eng.prove(z3.Sum([z3.If(z3.Function("fac_vsh_rank", I, I)(i) == 0, 0, 1) for i in range(n)]) > 1,
                                           "rejected only with two non-scalar factors"))


# EnrichedElement.__new__: flattening of nested enriched elements
def _ee_new(it):
    p = Parts(it, "el")
    it.eng.assume(p.n >= 2)
    return [EE, p.fam()], {}, p


C("EnrichedElement.__new__[>= 2 parts, not nested]", _ee_new, _construct,
  lambda it, p, r: it.eng.equal(it.getattr(r, "elements"), p.fam(), "parts in order"))


def _ee_nest(it):
    p, q = Parts(it, "el"), Parts(it, "in")
    it.eng.assume(q.n >= 2)
    inner = new(it, EE, elements=q.fam())
    return [EE, Seq([Elem(inner)] + list(p.fam().pieces), "tuple")], {}, (p, q)


C("EnrichedElement.__new__[nested]", _ee_nest, _construct,
  lambda it, c, r: it.eng.equal(it.getattr(r, "elements"), (c[1].fam() + c[0].fam()).as_kind("tuple"), "nested parts are spliced in order"))


def _ee_one(it):
    p = Parts(it, "el", n=z3.IntVal(1))
    return [EE, (p.obj(z3.IntVal(0)),)], {}, p


C("EnrichedElement.__new__[one part]", _ee_one, _construct, lambda it, p, r: it.eng.equal(r, p.obj(z3.IntVal(0)), "one-part enrichment is the part"))


# MixedElement: consecutive offsets
def _mx(it):
    p = Parts(it, "el")
    it.eng.assume(p.n >= 2)
    return [p.fam()], {}, p


def _ens_mx(it, p, r):
    eng = it.eng
    u, i = fresh_int(), fresh_int()
    def size(j):
        return prod_of(it, shape_fun("el_vsh", [j], it))
    def off(j):
        v = fresh_int()
        return eng.sum_over(v, Dom(n=j), size(v))
    els = it.getattr(r, "elements")
    got = it.map_seq(lambda e: (it.getattr(e, "element"), it.getattr(e, "size"), it.getattr(e, "offset")), it.iter_seq(els))
    eng.equal(got.as_kind("tuple"), flat(p.n, lambda k: [(p.obj(k), wrapz(off(p.n)), wrapz(off(k)))], "tuple"), "consecutive blocks of the value")


C("MixedElement", _mx, mixed.MixedElement, _ens_mx)


# shapes multiply to the space dimension (given that those of the parts do)
import numpy


def _mult(cls, mk):
    def setup(it):
        a, k, ctx = mk(it)
        return a, k, ctx
    @driver
    def target(it, args, kw):
        return it.call(numpy.prod, [it.getattr(args[0], "index_shape")]), it.call(it.getattr(args[0], "space_dimension"))
    return setup, target


def _parts_law(it, name, n):
    x = z3.Int("x")
    w = fresh_int()
    t = prod_of(it, shape_fun(name + "_ish", [w], it))
    d = z3.Function(name + "_dim", I, I)
    it.eng.fact(z3.ForAll([w], t == d(w), patterns=[d(w)]))


def _tpe_law(it):
    r = _tpe(it)
    _parts_law(it, "fac", r[2].n)
    return r


_s, _t = _mult(TPE, _tpe_law)
C("TensorProductElement: prod(index_shape) == space_dimension", _s, _t, lambda it, c, r: it.eng.equal(r[0], r[1], "shape multiplies to the dimension"))
_s, _t = _mult(EE, _ee)
C("EnrichedElement: prod(index_shape) == space_dimension", _s, _t, lambda it, c, r: it.eng.equal(r[0], r[1], "shape multiplies to the dimension"))
for tr in (False, True):
    _s, _t = _mult(TFE, _tfe(tr))
    C(f"TensorFiniteElement: prod(index_shape) == space_dimension[transpose={tr}]", _s, _t,
      lambda it, c, r: it.eng.equal(r[0], r[1], "shape multiplies to the dimension"))


# ---------------------------------------------------------------- complexes of products and sums
def _parts_of(cls, field, n):
    def setup(it):
        p = Parts(it, "part", n)
        parts = p.fam() if n is None else tuple(p.obj(z3.IntVal(k)) for k in range(n))
        return [new(it, cls, **{field: parts})], {}, (p, [p.obj(z3.IntVal(k)) for k in range(n)] if n else p.obj)
    return setup


def _product_cell(it, a, kw):
    return App("product cell", tuple(a))


def _ens_tp_complex(it, ctx, r):
    p, parts = ctx
    it.eng.prove(z3.BoolVal(isinstance(r, App) and r.fn == "product cell" and len(r.args) == len(parts)), "product of the complexes of all the factors")
    for x, o in zip(r.args, parts):
        it.eng.equal(x, it.getattr(o, "complex"), "complexes in the order of the factors")


for n in (1, 2, 3, 4):
    C(f"TensorProductElement.complex[{n} factors]", _parts_of(TPE, "factors", n), attr("complex"), _ens_tp_complex,
      models={tensor_product.TensorProductCell: _product_cell}, bounded="number of factors")


# ---------------------------------------------------------------- the discontinuous version tabulates as the element does
def _evaluated(names):
    def of(it, o):
        def call(it2, a, kw):
            v = dict(zip(names, a)) | dict(kw)
            return App("evaluated", (o, *(v.pop(k, None) for k in names), tuple(sorted(v))))
        return Model(call, "evaluation")
    return of


EVAL_NAMES = {"basis_evaluation": ("order", "ps", "entity", "coordinate_mapping"), "point_evaluation": ("order", "refcoords", "entity")}


def _disc_setup(how, given):
    def setup(it):
        el = Obj("el", (), Schema("el", {k: _evaluated(v) for k, v in EVAL_NAMES.items()}, notcls=(EE,)))
        args = {k: SInt(z3.Int("order")) if k == "order" else opaque("arg_" + k) for k in given}
        return [new(it, discontinuous.DiscontinuousElement, element=el)], args, (el, args)
    return setup


def _eval_driver(how, positional):
    @driver
    def run(it, a, kw):
        f = it.getattr(a[0], how)
        return it.call(f, list(kw.values()), {}) if positional else it.call(f, list(kw.values())[:2], dict(list(kw.items())[2:]))
    return run


for how, names in EVAL_NAMES.items():
    for m in range(2, len(names) + 1):
        for pos in (True, False):
            C(f"DiscontinuousElement.{how}[{m} arguments{'' if pos else ', by name'}]", _disc_setup(how, names[:m]), _eval_driver(how, pos),
              lambda it, ctx, r, names=names: it.eng.equal(r, App("evaluated", (ctx[0], *(ctx[1].get(k) for k in names), ())), "the element's own evaluation, with the same arguments"))
