"""P06: simple elements - the symbolic tabulation is the reference element's table at the points."""
from .evals import *
import inspect
import numpy
import FIAT
import gem
from FIAT.reference_element import Cell
from finat import fiat_elements, spectral, trace
from finat.fiat_elements import FiatElement
from finat.point_set import PointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet
from pyvc.ndarray import NArr
from pyvc.models import m_sum

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


ALPHA_ORDER = z3.Function("multiindex_order", U, I)


def sum_model(it, a, kw):
    """sum of an abstract derivative multi-index: its order"""
    v = it.eng.force(deref(a[0]))
    if isinstance(v, SU):
        t = ALPHA_ORDER(v.e)
        it.eng.fact(t >= 0)
        return SInt(t)
    return m_sum(it, a, kw)


MODELS = {sum: sum_model}


class FiatFam:
    """reference element of FIAT: tabulate(order, points, entity) -> {multi-index: array basis x value x point}"""
    def __init__(self, vrank, ctx):
        self.vrank = vrank
        self.n = z3.Int("fe_dim")
        self.vs = [z3.Int(f"fe_v{i}") for i in range(vrank)]
        self.degree = z3.Int("fe_degree")
        self.simplex = z3.Bool("fe_is_simplex")
        self.macro = z3.Bool("fe_is_macro")
    def pre(self, it, dims):
        for t in [self.n] + self.vs:
            it.eng.assume(t >= 1)
        it.eng.assume(self.degree >= 0)
        # the advertised degree on simplices: derivatives above it vanish, those of that order are constant
        for D in dims:
            al, od, en = z3.Const("xa", U), z3.Int("xo"), z3.Const("xe", U)
            ix = [z3.Int(f"x{i}") for i in range(1 + self.vrank)]
            pt = [z3.Real(f"y{i}") for i in range(D)]
            t = self.entry(it, al, od, en, ix, pt)
            const = z3.Function("fe_const", U, I, U, *[I] * len(ix), z3.RealSort())(al, od, en, *ix)
            m = ALPHA_ORDER(al)
            it.eng.fact(z3.ForAll([al, od, en] + ix + pt, z3.And(z3.Implies(z3.And(self.simplex, m > self.degree), t == 0),
                                                                 z3.Implies(z3.And(self.simplex, z3.Not(self.macro), m == self.degree), t == const)), patterns=[t]))
    def dims(self):
        return [self.n] + self.vs
    def cell(self):
        dim = z3.Const("fe_celldim", U)
        return Obj("fe_cell", (), Schema("fe_cell", {"is_simplex": method(lambda it, o: SBool(self.simplex)),
                                                     "get_dimension": method(lambda it, o: SU(dim))}, cls=(Cell,)))
    def complex(self):
        return Obj("fe_complex", (), Schema("fe_complex", {"is_macrocell": method(lambda it, o: SBool(self.macro)),
                                                           "is_simplex": method(lambda it, o: SBool(self.simplex))}, cls=(Cell,)))
    def entry(self, it, alpha, order, entity, ix, pt):
        """value of derivative alpha of basis function ix[0], component ix[1:], at the point with coordinates pt"""
        f = z3.Function("fe_tab", U, I, U, *[I] * len(ix), *[p.sort() for p in pt], z3.RealSort())
        return f(alpha, order, entity, *ix, *pt)
    def table(self, it, alpha, order, entity, pts):
        N, D = pts.shape
        def fn(it2, ix):
            *b, q = ix
            t = self.entry(it2, alpha, order, entity, b, [zr_(it2, pts.at(it2, [q, z3.IntVal(c)])) for c in range(D)])
            return SReal(t)
        it.eng.assumptions.add("FIAT tabulate: exact arithmetic; on simplices derivatives beyond degree() vanish and those of that order are constant on each sub-cell")
        return NArr(self.dims() + [N], fn)
    def tabulate(self, it, a, kw):
        v = dict(zip(["order", "points", "entity"], a)); v.update(kw)
        order, ent = order_term(it, v["order"]), token(it, v.get("entity"))
        pts = it.eng.force(deref(v["points"]))
        if not isinstance(pts, NArr):
            raise Unsupported(f"tabulate at {pts!r}")
        al = fresh_u("alpha")
        return PDict(it.eng, Seq([Flat(al, Dom(keys=KeySet("fe_derivatives", [order], U)), Seq([Elem((SU(al), self.table(it, al, order, ent, pts)))]))]))
    def obj(self):
        vshape = tuple(SInt(v) for v in self.vs)
        return Obj("fe", (), Schema("fe", {"space_dimension": method(lambda it, o: SInt(self.n)),
                                           "value_shape": method(lambda it, o: vshape),
                                           "degree": method(lambda it, o: SInt(self.degree)),
                                           "get_reference_element": method(lambda it, o: self.cell()),
                                           "get_reference_complex": method(lambda it, o: self.complex()),
                                           "tabulate": lambda it, o: Model(self.tabulate, "FIAT tabulate")}))


def zr_(it, v):
    from pyvc.engine import zr
    return zr(it.eng.force(deref(v)))


SPECTRAL_SETS = (GaussLegendrePointSet, GaussLobattoLegendrePointSet)


def points_obj(it, k, dim, cls=()):
    """a point set with k point indices (any extents) over the array of points"""
    ext = [z3.Int(f"q{i}_n") for i in range(k)]
    for e in ext:
        it.eng.assume(e >= 1)
    n = z3.IntVal(1)
    for e in ext:
        n = n * e
    n = z3.simplify(n)
    X = NArr.opaque("X", [], [n, dim])
    ix = []
    for i, e in enumerate(ext):
        g = gm.GIndex(f"q{i}", ())
        gm.store_extent(it, g, SInt(e))
        q = gm.lookup(it, (), ("i", g))
        it.eng.fact(z3.And(q >= 0, q < e))      # a point index ranges over its extent
        ix.append(g)
    o = Obj("ps", (), Schema("ps", {"points": lambda it2, _: X, "indices": lambda it2, _: tuple(ix)}, cls=cls, notcls=tuple(c for c in SPECTRAL_SETS if c not in cls)))
    return o, X, ix


def fe_setup(vrank, k, dim):
    def setup(it):
        fe = FiatFam(vrank, it)
        fe.pre(it, [dim])
        ps, X, ix = points_obj(it, k, dim)
        o = new(it, FiatElement, _element=fe.obj())
        order = z3.Int("order")
        it.eng.assume(order >= 0)
        ent = z3.Const("entity", U)
        return [o, SInt(order), ps, SU(ent)], {}, (fe, X, ix, order, ent)
    return setup


def fe_ens(it, ctx, r):
    fe, X, ix, order, ent = ctx
    ext = [gm.extent_of(it, i) for i in ix]
    def spec(al):
        tab = fe.table(it, al, order, ent, X)
        # table entry at (basis, value, flat position of the point indices)
        sh = fe.dims()
        arr = NArr([zi(x) for x in ext] + sh, lambda it2, q: tab.at(it2, list(q[len(ext):]) + [gm.ravel(it2, [SInt(t) for t in q[:len(ext)]], ext) if ext else z3.IntVal(0)]))
        idx = [gm.new_index(it, SInt(d)) for d in sh]
        node = gm.indexed(it, gm.G("arr", (arr,), arr.shape_seq(it)), Seq([Elem(i) for i in ix] + [Elem(i) for i in idx], "tuple"))
        return gm.component_tensor(it, node, Seq([Elem(i) for i in idx], "tuple"))
    al = fresh_u("alpha")
    want = PDict(it.eng, Seq([Flat(al, Dom(keys=KeySet("fe_derivatives", [order], U)), Seq([Elem((SU(al), spec(al)))]))]))
    it.eng.equal(r, want, "the reference element's table: basis indices, then value indices, at the point indices")


for vrank in (0, 1, 2):
    for k in (0, 1, 2, 3):
        for dim in ((1, 2, 3) if k == 1 else (2,)):
            C(f"FiatElement.basis_evaluation[value rank {vrank}, {k} point indices, {dim} coordinates]", fe_setup(vrank, k, dim), meth("basis_evaluation"), fe_ens,
              models=MODELS)


# ---- the exception entry: a table FIAT could not compute
def fail_setup(it):
    fe = FiatFam(1, it)
    fe.pre(it, [2])
    err = ValueError("no derivatives")
    ps, X, ix = points_obj(it, 1, 2)
    f = fe.obj()
    f.schema.attrs["tabulate"] = lambda it2, o: Model(lambda it3, a, kw: PDict(it3.eng, Seq([Elem(((0, 0), err))])), "FIAT tabulate")
    return [new(it, FiatElement, _element=f), 0, ps], {}, (fe, err)


def fail_ens(it, ctx, r):
    fe, err = ctx
    node = it.getitem(r, (0, 0))
    if not (isinstance(node, gm.G) and node.kind == "failure" and node.args[0] is err):
        return it.eng.fail("a table that cannot be computed becomes a failure node carrying the error", repr(node))
    it.eng.equal(it.mk(node.shape, "tuple"), tuple(SInt(d) for d in fe.dims()), "shape of the failure node: basis indices, then value indices")


C("FiatElement.basis_evaluation[table is an exception]", fail_setup, meth("basis_evaluation"), fail_ens, models=MODELS)


# ---- evaluation at run-time coordinates
class SymExpr(Substitutable):
    """an entry of FIAT's symbolic table: a SymPy expression in the coordinate symbols"""
    def __init__(self, al, order, ent, ix, syms):
        self.al, self.order, self.ent, self.ix, self.syms = al, order, ent, ix, syms
    def subst(self, f):
        return SymExpr(f(self.al), f(self.order), f(self.ent), [f(x) for x in self.ix], self.syms)
    def parts(self):
        return [self.al, self.order, self.ent] + list(self.ix)
    def pytype(self):
        return object


class Mapper(Substitutable):
    """gem.node.Memoizer(sympy2gem): the expression's value with the symbols bound to GEM scalars (property P13)"""
    def __init__(self):
        self.bindings = None
    def sym_setattr(self, it, name, v):
        if name != "bindings":
            raise Unsupported("mapper attribute " + name)
        self.bindings = v
    def sym_getattr(self, it, name):
        if name == "bindings" and self.bindings is not None:
            return self.bindings
        raise Unsupported("mapper attribute " + name)
    def subst(self, f):
        return self
    def parts(self):
        return []
    def apply(self, it, x):
        x = it.eng.force(deref(x))
        if not isinstance(x, SymExpr):
            raise Unsupported(f"sympy2gem of {x!r}")
        args = [gm.as_node(it, it.getitem(self.bindings, s)) for s in x.syms]
        return gm.tensor("fe_tab", [x.al, x.order, x.ent] + list(x.ix) + args, ())


class VecMap(Substitutable):
    def __init__(self, f):
        self.f = f
    def subst(self, f):
        return self
    def parts(self):
        return []


def memoizer(it, a, kw):
    from finat.sympy2gem import sympy2gem as s2g
    f = a[0]
    if getattr(f, "pyfunc", f) is not s2g and f is not s2g:
        raise Unsupported(f"Memoizer of {f!r}")
    it.eng.assumptions.add("sympy2gem preserves values (property P13)")
    return Mapper()


def vectorize(it, a, kw):
    m = a[0]
    if not isinstance(m, Mapper):
        raise Unsupported("vectorize")
    def call(it2, b, k):
        arr = it2.eng.force(deref(b[0]))
        return NArr(arr.shape, lambda it3, ix: m.apply(it3, arr.at(it3, ix)))
    return Model(call, "numpy.vectorize(mapper)")


PMODELS = {sum: sum_model, gem.node.Memoizer: memoizer, numpy.vectorize: vectorize}


def pt_tabulate(fe):
    def tab(it, a, kw):
        v = dict(zip(["order", "points", "entity"], a)); v.update(kw)
        order, ent = order_term(it, v["order"]), token(it, v.get("entity"))
        pts = it.concretize(v["points"])
        (syms,) = [tuple(p) for p in pts]
        al = fresh_u("alpha")
        arr = NArr(fe.dims() + [1], lambda it2, ix: SymExpr(al, order, ent, list(ix[:-1]), syms))
        return PDict(it.eng, Seq([Flat(al, Dom(keys=KeySet("fe_derivatives", [order], U)), Seq([Elem((SU(al), arr))]))]))
    return lambda it, o: Model(tab, "FIAT tabulate")


def pt_setup(vrank, dim, default):
    def setup(it):
        fe = FiatFam(vrank, it)
        fe.pre(it, [])
        f = fe.obj()
        f.schema.attrs["tabulate"] = pt_tabulate(fe)
        ed, top = z3.Const("entity_dim", U), z3.Const("fe_celldim", U)
        c = fe.cell()
        def sub(it2, a, kw):
            d = it2.eng.force(deref(a[0]))
            it2.eng.equal(d, SU(top) if default else SU(ed), "the sub-element of the entity's dimension")
            return Obj("fe_sub", (), Schema("fe_sub", {"get_spatial_dimension": method(lambda it3, o: dim), "get_dimension": method(lambda it3, o: dim)}))
        c.schema.attrs["construct_subelement"] = lambda it2, o: Model(sub, "construct_subelement")
        f.schema.attrs["get_reference_element"] = method(lambda it2, o: c)
        order = z3.Int("order")
        it.eng.assume(order >= 0)
        X = gm.tensor("point", [z3.Const("rt", U)], Seq([Elem(dim)], "tuple"))
        eid = z3.Int("entity_id")
        ent = None if default else (SU(ed), SInt(eid))
        tok = token(it, (SU(top), 0) if default else ent)
        args = [new(it, FiatElement, _element=f), SInt(order), X] + ([] if default else [ent])
        return args, {}, (fe, X, order, tok, dim)
    return setup


def pt_ens(it, ctx, r):
    fe, X, order, tok, dim = ctx
    coords = [gm.indexed(it, X, Seq([Elem(i)], "tuple")) for i in range(dim)]
    def spec(al):
        arr = NArr(fe.dims(), lambda it2, ix: gm.tensor("fe_tab", [al, order, tok] + list(ix) + coords, ()))
        return gm.G("arrlist", (arr,), arr.shape_seq(it))
    al = fresh_u("alpha")
    want = PDict(it.eng, Seq([Flat(al, Dom(keys=KeySet("fe_derivatives", [order], U)), Seq([Elem((SU(al), spec(al)))]))]))
    it.eng.equal(r, want, "the reference element's symbolic table at the given coordinates")


for vrank in (0, 1, 2):
    for dim in (1, 2, 3):
        for default in (False, True):
            C(f"FiatElement.point_evaluation[value rank {vrank}, {dim} coordinates{', default entity' if default else ''}]", pt_setup(vrank, dim, default),
              meth("point_evaluation"), pt_ens, models=PMODELS)


# ---- nodal shortcut of the spectral elements


class Fiat1D(FiatFam):
    """element on the interval with concrete derivative orders; nodal at the points of one family"""
    def __init__(self):
        super().__init__(0, None)
    def cell(self):
        c = super().cell()
        c.schema.attrs["get_dimension"] = method(lambda it, o: 1)
        c.schema.attrs["get_spatial_dimension"] = method(lambda it, o: 1)
        return c
    def alpha(self, it, m):
        t = z3.Const(f"alpha_{m}", U)
        it.eng.fact(ALPHA_ORDER(t) == m)
        return t
    def tabulate(self, it, a, kw):
        v = dict(zip(["order", "points", "entity"], a)); v.update(kw)
        order, ent = z3.simplify(order_term(it, v["order"])), token(it, v.get("entity"))
        pts = it.eng.force(deref(v["points"]))
        return PDict(it.eng, Seq([Elem(((m,), self.table(it, self.alpha(it, m), order, ent, pts))) for m in range(order.as_long() + 1)]))


def sp_setup(cls, pcls, order, entity):
    def setup(it):
        fe = Fiat1D()
        fe.pre(it, [1])
        ps, X, ix = points_obj(it, 1, 1, cls=(pcls,))
        o = new(it, cls, _element=fe.obj())
        if entity == "other":
            d, e = z3.Int("entity_dim"), z3.Int("entity_id")
            it.eng.assume(z3.And(d >= 0, d <= 1, e >= 0, z3.Or(d != 1, e != 0)))
            ent = (SInt(d), SInt(e))
        else:
            ent = entity
        tok = token(it, ent)
        nodal = {spectral.GaussLobattoLegendre: GaussLobattoLegendrePointSet, spectral.GaussLegendre: GaussLegendrePointSet}[cls]
        if pcls is nodal and entity != "other":
            # as many points as nodes: the points are the nodes, and the basis is nodal
            q, b = z3.Int("xq"), z3.Int("xb")
            t = fe.entry(it, fe.alpha(it, 0), z3.IntVal(order), tok, [b], [zr_(it, X.at(it, [q, z3.IntVal(0)]))])
            it.eng.fact(z3.ForAll([q, b], z3.Implies(z3.And(X.shape[0] == fe.n, q >= 0, q < fe.n, b >= 0, b < fe.n), t == z3.If(q == b, z3.RealVal(1), z3.RealVal(0))), patterns=[t]))
            it.eng.assumptions.add("a Gauss-(Lobatto-)Legendre point set with as many points as the element's dimension consists of the element's nodes")
        return [o, order, ps, ent], {}, (fe, X, ix, z3.IntVal(order), tok)
    return setup


def sp_ens(it, ctx, r):
    fe, X, ix, order, ent = ctx
    items = []
    for m in range(order.as_long() + 1):
        tab = fe.table(it, fe.alpha(it, m), order, ent, X)
        arr = tab.transpose([1, 0])
        b = gm.new_index(it, SInt(fe.n))
        node = gm.indexed(it, gm.G("arr", (arr,), arr.shape_seq(it)), Seq([Elem(ix[0]), Elem(b)], "tuple"))
        items.append(Elem(((m,), gm.component_tensor(it, node, Seq([Elem(b)], "tuple")))))
    it.eng.equal(r, PDict(it.eng, Seq(items)), "the reference element's table, also where the nodal shortcut is taken")


for cls in (spectral.GaussLobattoLegendre, spectral.GaussLegendre):
    for pcls in (GaussLobattoLegendrePointSet, GaussLegendrePointSet, PointSet):
        for entity in (None, (1, 0), "other"):
            for order in (0, 1, 2):
                C(f"{cls.__name__}.basis_evaluation[{pcls.__name__}, entity {entity}, order {order}]", sp_setup(cls, pcls, order, entity), meth("basis_evaluation"), sp_ens,
                  models=MODELS, bounded="derivative order")


# ---- the reference element behind a family name
def bound(cls, a, kw):
    """cell, degree and variant that the reference library's constructor receives, and what else it receives"""
    try:
        b = inspect.signature(cls.__init__ if isinstance(cls, type) else cls).bind(*([None] * isinstance(cls, type)), *a, **kw)
    except TypeError as e:
        raise PyRaise(TypeError, e.args)
    b.apply_defaults()
    vals = list(b.arguments.values())[isinstance(cls, type):]
    return vals + [None] * (3 - len(vals))


def library(cls):
    return lambda it, a, kw: App(f"FIAT.{cls.__name__}", tuple(it.eng.force(deref(x)) for x in bound(cls, a, kw)))


def family_setup(cls, variant):
    def setup(it):
        cell, deg = Obj("cell", (), Schema("cell", {"is_simplex": method(lambda it2, o: SBool(z3.Bool("cell_simplex")))}, cls=(Cell,))), z3.Int("degree")
        v = SU(z3.Const("variant", U))
        return [cell, SInt(deg)] + ([v] if variant == "given" else []), {"cls": cls}, (cell, deg, v if variant == "given" else None)
    return setup


@driver
def build_family(it, args, kw):
    return it.getattr(it.construct(kw["cls"], args, {}), "_element")


def family_ens(name):
    def ens(it, ctx, r):
        cell, deg, v = ctx
        it.eng.prove(z3.BoolVal(isinstance(r, App) and r.fn == f"FIAT.{name}"), f"the reference element is the library's {name}")
        it.eng.equal(r.args[0], cell, "on the given cell")
        it.eng.equal(r.args[1], SInt(deg), "of the given degree")
        it.eng.equal(r.args[2], v, "of the given variant")
        for x in r.args[3:]:
            it.eng.prove(z3.BoolVal(x is False or x is None), "nothing else is chosen")
    return ens


FAMILY_CLASSES = [c for m in (fiat_elements, spectral, trace) for c in vars(m).values()
                  if isinstance(c, type) and c.__module__ == m.__name__ and c.__name__ not in ("FiatElement", "ScalarFiatElement", "VectorFiatElement")]
for cls in FAMILY_CLASSES:
    name = {"Real": "DiscontinuousLagrange"}.get(cls.__name__, cls.__name__)
    lib = getattr(FIAT, name, None)
    if lib is None:
        continue
    for variant in ("default", "given") if "variant" in inspect.signature(cls.__init__).parameters else ("default",):
        C(f"{cls.__name__}: reference element for any cell and degree, {variant} variant", family_setup(cls, variant), build_family, family_ens(name),
          models={**{f: library(f) for f in vars(FIAT).values() if callable(f) and getattr(f, "__module__", "").startswith("FIAT.")}, **({fiat_elements.Citations: lambda it, a, kw: None} if fiat_elements.Citations else {})})
